//@ import conv
//@ import cbd
// ---------------------------------------------------------------------------
// fhe-math/src/rq/mod.rs : sampling of polynomials
// ---------------------------------------------------------------------------
use std::sync::Arc;
/// every coefficient is at most b in absolute value
pub open spec fn smallx(e: Seq<int>, b: int) -> bool { forall|j: int| 0 <= j < e.len() ==> -b <= #[trigger] e[j] <= b }
impl<R: RepresentationTag> Poly<R> {
    /// the polynomial is e, whatever its representation
    pub open spec fn isv(&self, e: Seq<int>) -> bool {
        if R::tag() == Representation::PowerBasis { e.len() == self.d() && forall|j: int| 0 <= j < self.d() ==> self.is_int(j, #[trigger] e[j]) } else { self.isx(e) }
    }
}
proof fn lemma_isv<R: RepresentationTag, S: RepresentationTag>(a: &Poly<R>, b: &Poly<S>, e: Seq<int>)
    requires sameval(a, b), R::tag() == S::tag(),
    ensures a.isv(e) == b.isv(e),
{
    if R::tag() == Representation::PowerBasis {
        if a.isv(e) { assert forall|j: int| 0 <= j < b.d() implies b.is_int(j, #[trigger] e[j]) by { assert(a.is_int(j, e[j])); } }
        if b.isv(e) { assert forall|j: int| 0 <= j < a.d() implies a.is_int(j, #[trigger] e[j]) by { assert(b.is_int(j, e[j])); } }
    } else {
        assert(a.rows() == b.rows());
        if a.isx(e) { assert forall|i: int| 0 <= i < b.n() implies b.ctx.ops@[i].is_fwd((#[trigger] b.rows()[i])@, e) by { assert(a.ctx.ops@[i].is_fwd(a.rows()[i]@, e)); } }
        if b.isx(e) { assert forall|i: int| 0 <= i < a.n() implies a.ctx.ops@[i].is_fwd((#[trigger] a.rows()[i])@, e) by { assert(b.ctx.ops@[i].is_fwd(b.rows()[i]@, e)); } }
    }
}
/// what the seed stands for (SHA-256 and ChaCha: not modelled)
pub uninterp spec fn seeded(ctx: Context, seed: [u8; 32]) -> Poly<Ntt>;
impl Poly<Ntt> {
    /// trusted: SHA-256 and the ChaCha generator
    #[verifier::external_body]
    pub fn random_from_seed(ctx: &Arc<Context>, seed: [u8; 32]) -> (r: Self)
        requires ctx.wf(),
        ensures r.wf(), r.ctx == *ctx, !r.allow_variable_time_computations, r == seeded(**ctx, seed),
    { unimplemented!() }
}
//known: Poly<R>::random_from_seed
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::small as=<R:RepresentationTag>Poly<R>::small
//@ ret r
//@ sig
    pub fn small(ctx: &Arc<Context>, variance: usize, rng: &mut VRng) -> (r: Result<Self>)
//@ subst &coeffs as &[i64] => coeffs.as_slice()
//@ spec
    requires ctx.wf(),
    ensures r is Ok <==> 1 <= variance <= 32,
        r matches Ok(p) ==> p.wf() && p.ctx == *ctx && !p.allow_variable_time_computations
            && exists|e: Seq<int>| smallx(e, 2 * variance) && #[trigger] p.isv(e),
//@ start
    let ghost mut e: Seq<int> = arbitrary();
    let ghost mut p0: Poly<PowerBasis> = arbitrary();
    broadcast use lemma_fwd_auto;
//@ after-let p
    proof {
        e = ivals(coeffs@); p0 = p;
        assert(pad(e, ctx.d()) =~= e);
        assert(p.coefs(e));
        assert(smallx(e, 2 * variance));
    }
//@ ret-hint
    proof {
        if r_ is Ok {
            let q = r_->Ok_0;
            if R::tag() == Representation::PowerBasis { lemma_isv(&q, &p0, e); }
            else if R::tag() == Representation::Ntt { lemma_fwd_of(&p0, &q, e); }
            else { lemma_fwd_of(&p0, &q, e); }
            assert(q.isv(e));
        }
    }
//@ end
