//@ import sem
// ---------------------------------------------------------------------------
// fhe-math/src/rq/convert.rs : conversions from and to integer vectors
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
/// A context owns n tables of d words, which exist in memory.
pub axiom fn lemma_ctx_fits(c: &Context)
    requires c.wf(),
    ensures c.n() * c.d() <= 0x00ff_ffff_ffff_ffff, c.d() <= 0x00ff_ffff_ffff_ffff;
/// ndarray: matrices are rectangular
pub open spec fn rect<T>(a: &Array2<T>) -> bool { forall|i: int| 0 <= i < a.rows@.len() ==> (#[trigger] a.rows@[i])@.len() == a.rows@[0]@.len() }
/// v in rows of d
pub open spec fn reshaped(v: Seq<u64>, rows: Seq<Vec<u64>>, n: int, d: int) -> bool {
    v.len() == n * d && dims(rows, n, d) && forall|i: int, j: int| 0 <= i < n && 0 <= j < d ==> (#[trigger] rows[i]@[j]) == v[i * d + j]
}
impl Array2<u64> {
    /// ndarray: Ok exactly when the shape fits the length
    #[verifier::external_body]
    pub fn from_shape_vec(s: (usize, usize), v: Vec<u64>) -> (r: core::result::Result<Array2<u64>, ()>)
        requires s.0 * s.1 <= usize::MAX,
        ensures r is Ok <==> v@.len() == s.0 * s.1, r matches Ok(a) ==> reshaped(v@, a.rows@, s.0 as int, s.1 as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ncols(&self) -> (r: usize)
        requires rect(self), self.rows@.len() > 0,
        ensures r == self.rows@[0]@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nrows(&self) -> (r: usize)
        ensures r == self.rows@.len(),
    { unimplemented!() }
    /// shape() == [n, d] (n > 0)
    #[verifier::external_body]
    pub fn vshape_is(&self, n: usize, d: usize) -> (r: bool)
        requires n > 0,
        ensures r == dims(self.rows@, n as int, d as int),
    { unimplemented!() }
    /// column j
    #[verifier::external_body]
    pub fn vcol(&self, j: usize) -> (r: Vec<u64>)
        requires rect(self), self.rows@.len() > 0, j < self.rows@[0]@.len(),
        ensures r@.len() == self.rows@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.rows@[i]@[j as int],
    { unimplemented!() }
    /// overwrites column j
    #[verifier::external_body]
    pub fn vset_col(&mut self, j: usize, c: &Vec<u64>)
        requires rect(old(self)), old(self).rows@.len() > 0, j < old(self).rows@[0]@.len(), c@.len() == old(self).rows@.len(),
        ensures final(self).rows@.len() == old(self).rows@.len(),
            forall|i: int| 0 <= i < old(self).rows@.len() ==> (#[trigger] final(self).rows@[i])@ == old(self).rows@[i]@.update(j as int, c@[i]),
    { unimplemented!() }
    /// the elements in row-major order (matrices are in standard layout)
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: Option<&[u64]>)
        requires rect(self), self.rows@.len() > 0,
        ensures r matches Some(s) && reshaped(s@, self.rows@, self.rows@.len() as int, self.rows@[0]@.len() as int),
    { unimplemented!() }
}
impl Zeroize for Vec<u64> {
    /// zeroize: clears
    #[verifier::external_body]
    fn zeroize(&mut self) { unimplemented!() }
}
/// x[lo..hi].copy_from_slice(y)
#[verifier::external_body]
pub fn vcopy(x: &mut [u64], lo: usize, hi: usize, y: &[u64])
    requires lo <= hi <= old(x)@.len(), y@.len() == hi - lo,
    ensures final(x)@.len() == old(x)@.len(), forall|k: int| 0 <= k < old(x)@.len() ==> #[trigger] final(x)@[k] == if lo <= k < hi { y@[k - lo] } else { old(x)@[k] },
{ x[lo..hi].copy_from_slice(y) }

/// v, zero padded, at j
pub open spec fn padx(v: Seq<int>, j: int) -> int { if 0 <= j < v.len() { v[j] } else { 0 } }
pub open spec fn pad(v: Seq<int>, d: int) -> Seq<int> { Seq::new(d as nat, |j: int| padx(v, j)) }
pub open spec fn ivals(v: Seq<i64>) -> Seq<int> { Seq::new(v.len(), |j: int| v[j] as int) }
pub open spec fn bvals(v: Seq<BigUint>) -> Seq<int> { Seq::new(v.len(), |j: int| v[j].v() as int) }
/// a full matrix of residues, in rows
pub open spec fn full(v: Seq<u64>, c: &Context) -> bool { v.len() == c.n() * c.d() }
/// ... all canonical
pub open spec fn full_ok(v: Seq<u64>, c: &Context) -> bool { full(v, c) && forall|i: int, j: int| 0 <= i < c.n() && 0 <= j < c.d() ==> #[trigger] v[i * c.d() + j] < c.p(i) }
pub open spec fn fresh<R: RepresentationTag>(r: &Poly<R>, c: &Arc<Context>, vt: bool) -> bool { r.ctx == *c && r.allow_variable_time_computations == vt && !r.has_lazy_coefficients }
/// what the conversion of a vector of integers yields: exactly those coefficients, zero padded
pub open spec fn conv_vec(v: Seq<u64>, c: &Arc<Context>, vt: bool, r: Result<Poly<PowerBasis>>) -> bool {
    &&& r is Ok <==> full(v, &**c) || v.len() <= c.d()
    &&& r matches Ok(p) ==> fresh(&p, c, vt)
    &&& r matches Ok(p) ==> if full(v, &**c) { reshaped(v, p.rows(), c.n(), c.d()) && (full_ok(v, &**c) ==> p.wf()) } else { p.wf() && p.coefs(pad(vals(v), c.d())) }
}
pub open spec fn conv_rows<R: RepresentationTag>(v: Seq<u64>, c: &Arc<Context>, vt: bool, r: Result<Poly<R>>) -> bool {
    &&& r is Ok <==> full(v, &**c)
    &&& r matches Ok(p) ==> fresh(&p, c, vt) && reshaped(v, p.rows(), c.n(), c.d()) && (full_ok(v, &**c) ==> p.wf())
}
pub open spec fn arr_ok(a: &Array2<u64>, c: &Context) -> bool { forall|i: int| 0 <= i < c.n() ==> canon((#[trigger] a.rows@[i])@, c.p(i)) }
pub open spec fn conv_arr<R: RepresentationTag>(a: Array2<u64>, c: &Arc<Context>, vt: bool, r: Result<Poly<R>>) -> bool {
    &&& r is Ok <==> dims(a.rows@, c.n(), c.d())
    &&& r matches Ok(p) ==> fresh(&p, c, vt) && p.rows() == a.rows@ && (arr_ok(&a, &**c) ==> p.wf())
}
pub open spec fn conv_int(v: Seq<int>, c: &Arc<Context>, vt: bool, r: Result<Poly<PowerBasis>>) -> bool {
    &&& r is Ok <==> v.len() <= c.d()
    &&& r matches Ok(p) ==> fresh(&p, c, vt) && p.wf() && p.coefs(pad(v, c.d()))
}
proof fn lemma_cell(i: int, j: int, n: int, d: int)
    requires 0 <= i < n, 0 <= j < d,
    ensures 0 <= i * d + j < n * d,
{ assert(0 <= i * d + j < n * d) by (nonlinear_arith) requires 0 <= i < n, 0 <= j < d; }
proof fn lemma_full_wfc<R: RepresentationTag>(p: &Poly<R>, v: Seq<u64>)
    requires p.ctx.wf(), !p.has_lazy_coefficients, full_ok(v, &*p.ctx), reshaped(v, p.rows(), p.n(), p.d()),
    ensures p.wfc(),
{
    assert forall|i: int| 0 <= i < p.n() implies canon((#[trigger] p.rows()[i])@, p.p(i)) by {
        assert forall|j: int| 0 <= j < p.d() implies p.rows()[i]@[j] < p.p(i) by { assert(p.rows()[i]@[j] == v[i * p.d() + j]); }
    }
}
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<Vec<u64>>@Poly<PowerBasis>::try_convert_from as=Poly<PowerBasis>::from_vec
//@ ret r
//@ spec
    requires ctx.wf(),
    ensures conv_vec(v@, ctx, variable_time, r),
//@ start
    let ghost v0 = v@;
    proof { lemma_ctx_fits(&**ctx); }
//@ ret-hint
    proof { if full_ok(v0, &**ctx) { if r_ is Ok { lemma_full_wfc(&r_->Ok_0, v0); } } }
//@ loop 0
    invariant
        n_0 == ctx.n(), v@ == v0, v0.len() <= ctx.d(), out.wf(), out.ctx == *ctx, !out.allow_variable_time_computations,
        forall|i: int, j: int| 0 <= i < i_0 && 0 <= j < ctx.d() ==> (#[trigger] out.rows()[i]@[j]) as int == padx(vals(v0), j) % ctx.p(i),
        forall|i: int, j: int| i_0 <= i < ctx.n() && 0 <= j < ctx.d() ==> (#[trigger] out.rows()[i]@[j]) == 0,
//@ loop-start 0
    proof { assert(ctx.wf_i(i_0 as int)); }
//@ loop 1
    invariant
        n_1 == ctx.n(), v@ == v0, v0.len() <= ctx.d(), out.wf(), out.ctx == *ctx, !out.allow_variable_time_computations,
        forall|i: int, j: int| 0 <= i < i_1 && 0 <= j < ctx.d() ==> (#[trigger] out.rows()[i]@[j]) as int == padx(vals(v0), j) % ctx.p(i),
        forall|i: int, j: int| i_1 <= i < ctx.n() && 0 <= j < ctx.d() ==> (#[trigger] out.rows()[i]@[j]) == 0,
//@ loop-start 1
    proof { assert(ctx.wf_i(i_1 as int)); }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<Vec<u64>>@Poly<Ntt>::try_convert_from as=Poly<Ntt>::from_vec
//@ ret r
//@ spec
    requires ctx.wf(),
    ensures conv_rows(v@, ctx, variable_time, r),
//@ start
    proof { lemma_ctx_fits(&**ctx); }
//@ ret-hint
    proof { if full_ok(v@, &**ctx) { if r_ is Ok { lemma_full_wfc(&r_->Ok_0, v@); } } }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<Vec<u64>>@Poly<NttShoup>::try_convert_from as=Poly<NttShoup>::from_vec
//@ ret r
//@ spec
    requires ctx.wf(), full(v@, &**ctx) ==> full_ok(v@, &**ctx),
    ensures conv_rows(v@, ctx, variable_time, r),
//@ start
    let ghost mut p0: Option<Poly<NttShoup>> = None;
    proof { lemma_ctx_fits(&**ctx); }
//@ after-let p
    proof { lemma_full_wfc(&p, v@); }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<Array2<u64>>@Poly<PowerBasis>::try_convert_from as=Poly<PowerBasis>::from_arr
//@ subst a.shape() != [ctx.q.len(), ctx.degree] => !a.vshape_is(ctx.q.len(), ctx.degree)
//@ ret r
//@ spec
    requires ctx.wf(),
    ensures conv_arr(a, ctx, variable_time, r),
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<Array2<u64>>@Poly<Ntt>::try_convert_from as=Poly<Ntt>::from_arr
//@ subst a.shape() != [ctx.q.len(), ctx.degree] => !a.vshape_is(ctx.q.len(), ctx.degree)
//@ ret r
//@ spec
    requires ctx.wf(),
    ensures conv_arr(a, ctx, variable_time, r),
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<Array2<u64>>@Poly<NttShoup>::try_convert_from as=Poly<NttShoup>::from_arr
//@ subst a.shape() != [ctx.q.len(), ctx.degree] => !a.vshape_is(ctx.q.len(), ctx.degree)
//@ ret r
//@ spec
    requires ctx.wf(), dims(a.rows@, ctx.n(), ctx.d()) ==> arr_ok(&a, &**ctx),
    ensures conv_arr(a, ctx, variable_time, r),
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&'a[i64]>@Poly<PowerBasis>::try_convert_from as=Poly<PowerBasis>::from_i64
//@ ret r
//@ sig
    pub fn from_i64(v: &[i64], ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>)
//@ spec
    requires ctx.wf(),
    ensures conv_int(ivals(v@), ctx, variable_time, r),
//@ loop 0
    invariant
        n_0 == ctx.n(), v@.len() <= ctx.d(), out.wf(), out.ctx == *ctx, out.allow_variable_time_computations == variable_time,
        forall|i: int, j: int| 0 <= i < i_0 && 0 <= j < ctx.d() ==> (#[trigger] out.rows()[i]@[j]) as int == padx(ivals(v@), j) % ctx.p(i),
        forall|i: int, j: int| i_0 <= i < ctx.n() && 0 <= j < ctx.d() ==> (#[trigger] out.rows()[i]@[j]) == 0,
//@ loop-start 0
    proof { assert(ctx.wf_i(i_0 as int)); assert(0int % ctx.p(i_0 as int) == 0); }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&'a[BigUint]>@Poly<PowerBasis>::try_convert_from as=Poly<PowerBasis>::from_big
//@ refs vi
//@ ret r
//@ sig
    pub fn from_big(v: &[BigUint], ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>)
//@ spec
    requires ctx.wf(),
    ensures conv_int(bvals(v@), ctx, variable_time, r),
//@ loop 0
    invariant
        n_0 == v@.len(), v@.len() <= ctx.d(), dims(coefficients.rows@, ctx.n(), ctx.d()),
        forall|i: int, j: int| 0 <= i < ctx.n() && 0 <= j < ctx.d() ==> (#[trigger] coefficients.rows@[i]@[j]) as int == (if j < i_0 { v@[j].v() as int % ctx.p(i) } else { 0 }),
//@ loop-after 0
    proof {
        assert forall|i: int| 0 <= i < ctx.n() implies canon((#[trigger] coefficients.rows@[i])@, ctx.p(i)) by {
            assert(ctx.wf_i(i));
            assert forall|j: int| 0 <= j < ctx.d() implies coefficients.rows@[i]@[j] < ctx.p(i) by { if j < v@.len() { lemma_mod_bound(v@[j].v() as int, ctx.p(i)); } }
        }
        assert forall|i: int, j: int| 0 <= i < ctx.n() && 0 <= j < ctx.d() implies (#[trigger] coefficients.rows@[i]@[j]) as int == padx(bvals(v@), j) % ctx.p(i) by { assert(ctx.wf_i(i)); assert(0int % ctx.p(i) == 0); }
    }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs From<&Poly<PowerBasis>>@Vec<BigUint>::from as=Poly<PowerBasis>::to_big
//@ vec 0 BigUint
//@ ret r
//@ sig
    pub fn to_big(p: &Poly<PowerBasis>) -> (r: Vec<BigUint>)
//@ spec
    requires p.wf(),
    ensures r@.len() == p.d(), forall|j: int| 0 <= j < p.d() ==> (#[trigger] r@[j]).v() < p.ctx.rns.q() && p.is_int(j, r@[j].v() as int),
//@ loop 0
    invariant
        n_0 == p.d(), out_0@.len() == i_0,
        forall|j: int| 0 <= j < i_0 ==> (#[trigger] out_0@[j]).v() < p.ctx.rns.q() && p.is_int(j, out_0@[j].v() as int),
//@ loop-end 0
    proof {
        let x = out_0@[i_0 as int].v() as int;
        assert forall|i: int| 0 <= i < p.n() implies (#[trigger] p.rows()[i])@[i_0 as int] as int == x % p.p(i) by {
            assert(p.ctx.wf_i(i)); assert(canon(p.rows()[i]@, p.p(i)));
            assert(p.ctx.rns.m(i) == p.p(i));
            lemma_small_mod(p.rows()[i]@[i_0 as int] as nat, p.p(i) as nat);
        }
    }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryFrom<&Poly<PowerBasis>>@Vec<u64>::try_from as=Poly<PowerBasis>::to_u64s
//@ ret r
//@ sig
    pub fn to_u64s(p: &Poly<PowerBasis>) -> (r: Result<Vec<u64>>)
//@ spec
    requires p.wf(),
    ensures r matches Ok(v) && reshaped(v@, p.rows(), p.n(), p.d()),
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&'a[u64]>@Poly<PowerBasis>::try_convert_from as=Poly<PowerBasis>::from_slice
//@ subst Poly::<PowerBasis>::try_convert_from => Poly::<PowerBasis>::from_vec
//@ ret r
//@ sig
    pub fn from_slice(v: &[u64], ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>)
//@ spec
    requires ctx.wf(),
    ensures conv_vec(v@, ctx, variable_time, r),
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&'aVec<u64>>@Poly<PowerBasis>::try_convert_from as=Poly<PowerBasis>::from_vecref
//@ subst Poly::try_convert_from => Self::from_vec
//@ ret r
//@ sig
    pub fn from_vecref(v: &Vec<u64>, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>)
//@ spec
    requires ctx.wf(),
    ensures conv_vec(v@, ctx, variable_time, r),
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&'a[u64]>@Poly<Ntt>::try_convert_from as=Poly<Ntt>::from_slice
//@ subst Poly::<Ntt>::try_convert_from => Poly::<Ntt>::from_vec
//@ ret r
//@ sig
    pub fn from_slice(v: &[u64], ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>)
//@ spec
    requires ctx.wf(),
    ensures conv_rows(v@, ctx, variable_time, r),
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&'aVec<u64>>@Poly<Ntt>::try_convert_from as=Poly<Ntt>::from_vecref
//@ subst Poly::try_convert_from => Self::from_vec
//@ ret r
//@ sig
    pub fn from_vecref(v: &Vec<u64>, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>)
//@ spec
    requires ctx.wf(),
    ensures conv_rows(v@, ctx, variable_time, r),
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&'a[u64]>@Poly<NttShoup>::try_convert_from as=Poly<NttShoup>::from_slice
//@ subst Poly::<NttShoup>::try_convert_from => Poly::<NttShoup>::from_vec
//@ ret r
//@ sig
    pub fn from_slice(v: &[u64], ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>)
//@ spec
    requires ctx.wf(), full(v@, &**ctx) ==> full_ok(v@, &**ctx),
    ensures conv_rows(v@, ctx, variable_time, r),
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&'aVec<u64>>@Poly<NttShoup>::try_convert_from as=Poly<NttShoup>::from_vecref
//@ subst Poly::try_convert_from => Self::from_vec
//@ ret r
//@ sig
    pub fn from_vecref(v: &Vec<u64>, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>)
//@ spec
    requires ctx.wf(), full(v@, &**ctx) ==> full_ok(v@, &**ctx),
    ensures conv_rows(v@, ctx, variable_time, r),
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&'a[BigUint]>@Poly<Ntt>::try_convert_from as=Poly<Ntt>::from_big
//@ subst Poly::<PowerBasis>::try_convert_from => Poly::<PowerBasis>::from_big
//@ ret r
//@ sig
    pub fn from_big(v: &[BigUint], ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>)
//@ spec
    requires ctx.wf(),
    ensures r is Ok <==> v@.len() <= ctx.d(), r matches Ok(p) ==> fresh(&p, ctx, variable_time) && p.wf() && p.isx(pad(bvals(v@), ctx.d())),
//@ start
    let ghost mut p0: Poly<PowerBasis> = arbitrary();
//@ after-let p
    proof { p0 = p; }
//@ ret-hint
    proof { if r_ is Ok { lemma_fwd_of(&p0, &r_->Ok_0, pad(bvals(v@), ctx.d())); } }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&'a[BigUint]>@Poly<NttShoup>::try_convert_from as=Poly<NttShoup>::from_big
//@ subst Poly::<PowerBasis>::try_convert_from => Poly::<PowerBasis>::from_big
//@ ret r
//@ sig
    pub fn from_big(v: &[BigUint], ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>)
//@ spec
    requires ctx.wf(),
    ensures r is Ok <==> v@.len() <= ctx.d(), r matches Ok(p) ==> fresh(&p, ctx, variable_time) && p.wf() && p.isx(pad(bvals(v@), ctx.d())),
//@ start
    let ghost mut p0: Poly<PowerBasis> = arbitrary();
//@ after-let p
    proof { p0 = p; }
//@ ret-hint
    proof { if r_ is Ok { lemma_fwd_of(&p0, &r_->Ok_0, pad(bvals(v@), ctx.d())); } }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs From<&Poly<Ntt>>@Vec<BigUint>::from as=Poly<Ntt>::to_big
//@ vec 0 BigUint
//@ ret r
//@ sig
    pub fn to_big(p: &Poly<Ntt>) -> (r: Vec<BigUint>)
//@ spec
    requires p.wf(),
    ensures r@.len() == p.d(), forall|j: int| 0 <= j < p.d() ==> (#[trigger] r@[j]).v() < p.ctx.rns.q() && p.is_int(j, r@[j].v() as int),
//@ loop 0
    invariant
        n_0 == p.d(), out_0@.len() == i_0,
        forall|j: int| 0 <= j < i_0 ==> (#[trigger] out_0@[j]).v() < p.ctx.rns.q() && p.is_int(j, out_0@[j].v() as int),
//@ loop-end 0
    proof {
        let x = out_0@[i_0 as int].v() as int;
        assert forall|i: int| 0 <= i < p.n() implies (#[trigger] p.rows()[i])@[i_0 as int] as int == x % p.p(i) by {
            assert(p.ctx.wf_i(i)); assert(canon(p.rows()[i]@, p.p(i)));
            assert(p.ctx.rns.m(i) == p.p(i));
            lemma_small_mod(p.rows()[i]@[i_0 as int] as nat, p.p(i) as nat);
        }
    }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryFrom<&Poly<Ntt>>@Vec<u64>::try_from as=Poly<Ntt>::to_u64s
//@ ret r
//@ sig
    pub fn to_u64s(p: &Poly<Ntt>) -> (r: Result<Vec<u64>>)
//@ spec
    requires p.wf(),
    ensures r matches Ok(v) && reshaped(v@, p.rows(), p.n(), p.d()),
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs From<&Poly<NttShoup>>@Vec<BigUint>::from as=Poly<NttShoup>::to_big
//@ vec 0 BigUint
//@ ret r
//@ sig
    pub fn to_big(p: &Poly<NttShoup>) -> (r: Vec<BigUint>)
//@ spec
    requires p.wf(),
    ensures r@.len() == p.d(), forall|j: int| 0 <= j < p.d() ==> (#[trigger] r@[j]).v() < p.ctx.rns.q() && p.is_int(j, r@[j].v() as int),
//@ loop 0
    invariant
        n_0 == p.d(), out_0@.len() == i_0,
        forall|j: int| 0 <= j < i_0 ==> (#[trigger] out_0@[j]).v() < p.ctx.rns.q() && p.is_int(j, out_0@[j].v() as int),
//@ loop-end 0
    proof {
        let x = out_0@[i_0 as int].v() as int;
        assert forall|i: int| 0 <= i < p.n() implies (#[trigger] p.rows()[i])@[i_0 as int] as int == x % p.p(i) by {
            assert(p.ctx.wf_i(i)); assert(canon(p.rows()[i]@, p.p(i)));
            assert(p.ctx.rns.m(i) == p.p(i));
            lemma_small_mod(p.rows()[i]@[i_0 as int] as nat, p.p(i) as nat);
        }
    }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryFrom<&Poly<NttShoup>>@Vec<u64>::try_from as=Poly<NttShoup>::to_u64s
//@ ret r
//@ sig
    pub fn to_u64s(p: &Poly<NttShoup>) -> (r: Result<Vec<u64>>)
//@ spec
    requires p.wf(),
    ensures r matches Ok(v) && reshaped(v@, p.rows(), p.n(), p.d()),
//@ end

/// fhe_math::rq::traits::TryConvertFrom, with the contract of each implementation
pub trait TryConvertFrom<T>: Sized {
    spec fn tcf_req(v: T, c: &Arc<Context>) -> bool;
    spec fn tcf_ens(v: T, c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool;
    fn try_convert_from(v: T, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>)
        requires ctx.wf(), Self::tcf_req(v, ctx),
        ensures Self::tcf_ens(v, ctx, variable_time, r);
}
impl TryConvertFrom<Vec<u64>> for Poly<PowerBasis> {
    open spec fn tcf_req(v: Vec<u64>, c: &Arc<Context>) -> bool { true }
    open spec fn tcf_ens(v: Vec<u64>, c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_vec(v@, c, vt, r) }
    fn try_convert_from(v: Vec<u64>, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_vec(v, ctx, variable_time) }
}
impl TryConvertFrom<Vec<u64>> for Poly<Ntt> {
    open spec fn tcf_req(v: Vec<u64>, c: &Arc<Context>) -> bool { true }
    open spec fn tcf_ens(v: Vec<u64>, c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_rows(v@, c, vt, r) }
    fn try_convert_from(v: Vec<u64>, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_vec(v, ctx, variable_time) }
}
impl TryConvertFrom<Vec<u64>> for Poly<NttShoup> {
    open spec fn tcf_req(v: Vec<u64>, c: &Arc<Context>) -> bool { full(v@, &**c) ==> full_ok(v@, &**c) }
    open spec fn tcf_ens(v: Vec<u64>, c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_rows(v@, c, vt, r) }
    fn try_convert_from(v: Vec<u64>, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_vec(v, ctx, variable_time) }
}
impl TryConvertFrom<Array2<u64>> for Poly<PowerBasis> {
    open spec fn tcf_req(v: Array2<u64>, c: &Arc<Context>) -> bool { true }
    open spec fn tcf_ens(v: Array2<u64>, c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_arr(v, c, vt, r) }
    fn try_convert_from(v: Array2<u64>, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_arr(v, ctx, variable_time) }
}
impl TryConvertFrom<Array2<u64>> for Poly<Ntt> {
    open spec fn tcf_req(v: Array2<u64>, c: &Arc<Context>) -> bool { true }
    open spec fn tcf_ens(v: Array2<u64>, c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_arr(v, c, vt, r) }
    fn try_convert_from(v: Array2<u64>, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_arr(v, ctx, variable_time) }
}
impl TryConvertFrom<Array2<u64>> for Poly<NttShoup> {
    open spec fn tcf_req(v: Array2<u64>, c: &Arc<Context>) -> bool { dims(v.rows@, c.n(), c.d()) ==> arr_ok(&v, &**c) }
    open spec fn tcf_ens(v: Array2<u64>, c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_arr(v, c, vt, r) }
    fn try_convert_from(v: Array2<u64>, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_arr(v, ctx, variable_time) }
}
impl<'a> TryConvertFrom<&'a [i64]> for Poly<PowerBasis> {
    open spec fn tcf_req(v: &'a [i64], c: &Arc<Context>) -> bool { true }
    open spec fn tcf_ens(v: &'a [i64], c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_int(ivals(v@), c, vt, r) }
    fn try_convert_from(v: &'a [i64], ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_i64(v, ctx, variable_time) }
}
impl<'a> TryConvertFrom<&'a [BigUint]> for Poly<PowerBasis> {
    open spec fn tcf_req(v: &'a [BigUint], c: &Arc<Context>) -> bool { true }
    open spec fn tcf_ens(v: &'a [BigUint], c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_int(bvals(v@), c, vt, r) }
    fn try_convert_from(v: &'a [BigUint], ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_big(v, ctx, variable_time) }
}
impl<'a> TryConvertFrom<&'a [u64]> for Poly<PowerBasis> {
    open spec fn tcf_req(v: &'a [u64], c: &Arc<Context>) -> bool { true }
    open spec fn tcf_ens(v: &'a [u64], c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_vec(v@, c, vt, r) }
    fn try_convert_from(v: &'a [u64], ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_slice(v, ctx, variable_time) }
}
impl<'a> TryConvertFrom<&'a [u64]> for Poly<Ntt> {
    open spec fn tcf_req(v: &'a [u64], c: &Arc<Context>) -> bool { true }
    open spec fn tcf_ens(v: &'a [u64], c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_rows(v@, c, vt, r) }
    fn try_convert_from(v: &'a [u64], ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_slice(v, ctx, variable_time) }
}
impl<'a> TryConvertFrom<&'a [u64]> for Poly<NttShoup> {
    open spec fn tcf_req(v: &'a [u64], c: &Arc<Context>) -> bool { full(v@, &**c) ==> full_ok(v@, &**c) }
    open spec fn tcf_ens(v: &'a [u64], c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_rows(v@, c, vt, r) }
    fn try_convert_from(v: &'a [u64], ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_slice(v, ctx, variable_time) }
}
impl<'a> TryConvertFrom<&'a Vec<u64>> for Poly<PowerBasis> {
    open spec fn tcf_req(v: &'a Vec<u64>, c: &Arc<Context>) -> bool { true }
    open spec fn tcf_ens(v: &'a Vec<u64>, c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_vec(v@, c, vt, r) }
    fn try_convert_from(v: &'a Vec<u64>, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_vecref(v, ctx, variable_time) }
}
impl<'a> TryConvertFrom<&'a Vec<u64>> for Poly<Ntt> {
    open spec fn tcf_req(v: &'a Vec<u64>, c: &Arc<Context>) -> bool { true }
    open spec fn tcf_ens(v: &'a Vec<u64>, c: &Arc<Context>, vt: bool, r: Result<Self>) -> bool { conv_rows(v@, c, vt, r) }
    fn try_convert_from(v: &'a Vec<u64>, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Self>) { Self::from_vecref(v, ctx, variable_time) }
}
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::try_convert_from_public as=<R:RepresentationTag>Poly<R>::try_convert_from_public
//@ ret r
//@ subst traits :: TryConvertFrom => TryConvertFrom
//@ spec
    requires ctx.wf(), Self::tcf_req(value, ctx),
    ensures Self::tcf_ens(value, ctx, true, r),
//@ end
