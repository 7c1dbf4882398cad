//@ import conv
//@ import zqser
// ---------------------------------------------------------------------------
// fhe-math/src/rq/convert.rs : polynomials to and from their serialised form
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power2::{pow2, lemma_pow2_adds, lemma2_to64};
use std::sync::Arc;
/// the generated protobuf message
pub struct Rq { pub representation: i32, pub degree: u32, pub coefficients: Vec<u8>, pub allow_variable_time: bool }
pub enum RepresentationProto { Unknown = 0, Powerbasis = 1, Ntt = 2, Nttshoup = 3 }
pub fn vrepr(x: i32) -> (r: core::result::Result<RepresentationProto, ()>)
    ensures r is Ok <==> 0 <= x <= 3,
        x == 0 ==> r == Ok::<RepresentationProto, ()>(RepresentationProto::Unknown), x == 1 ==> r == Ok::<RepresentationProto, ()>(RepresentationProto::Powerbasis),
        x == 2 ==> r == Ok::<RepresentationProto, ()>(RepresentationProto::Ntt), x == 3 ==> r == Ok::<RepresentationProto, ()>(RepresentationProto::Nttshoup),
{ if x == 0 { Ok(RepresentationProto::Unknown) } else if x == 1 { Ok(RepresentationProto::Powerbasis) } else if x == 2 { Ok(RepresentationProto::Ntt) } else if x == 3 { Ok(RepresentationProto::Nttshoup) } else { Err(()) } }
pub open spec fn tag_i32(r: Representation) -> i32 { match r { Representation::PowerBasis => 1i32, Representation::Ntt => 2i32, Representation::NttShoup => 3i32 } }

/// bytes of row i, and of the rows before it
pub open spec fn slen(c: &Context, i: int) -> int { c.d() * nbits_of(c.p(i)) / 8 }
pub open spec fn soff(c: &Context, i: int) -> int
    decreases i,
{ if i <= 0 { 0 } else { soff(c, i - 1) + slen(c, i - 1) } }
/// row i of the coefficient matrix v, in row-major order
pub open spec fn rowof(v: Seq<u64>, c: &Context, i: int) -> Seq<u64> { v.subrange(i * c.d(), (i + 1) * c.d()) }
/// v is what the bytes decode to
pub open spec fn decoded(b: Seq<u8>, v: Seq<u64>, c: &Context) -> bool {
    &&& b.len() == soff(c, c.n())
    &&& forall|i: int| 0 <= i < c.n() ==> packed(d8(b.subrange(soff(c, i), soff(c, i + 1))), 8, d64(#[trigger] rowof(v, c, i)), nbits_of(c.p(i)))
}
pub open spec fn encoded(b: Seq<u8>, rows: Seq<Vec<u64>>, c: &Context) -> bool {
    &&& b.len() == soff(c, c.n())
    &&& forall|i: int| 0 <= i < c.n() ==> packed(d64((#[trigger] rows[i])@), nbits_of(c.p(i)), d8(b.subrange(soff(c, i), soff(c, i + 1))), 8)
}
pub proof fn lemma_slen(c: &Context, i: int)
    requires c.wf(), 0 <= i < c.n(),
    ensures 0 <= slen(c, i) <= 8 * c.d(), slen(c, i) * 8 == c.d() * nbits_of(c.p(i)), c.d() % 8 == 0,
        slen(c, i) == ceil_div((c.d() * nbits_of(c.p(i))) as int, 8),
{
    assert(c.wf_i(i));
    lemma_nbits(c.moduli@[i]);
    lemma_pow2_mult8(c.d());
    let n = nbits_of(c.p(i)) as int; let d = c.d();
    let q = d / 8;
    assert(d * n == 8 * (q * n)) by (nonlinear_arith) requires d == 8 * q;
    assert(d * n <= d * 64) by (nonlinear_arith) requires 0 <= n <= 64, d >= 0;
    assert(0 <= q * n) by (nonlinear_arith) requires q >= 0, n >= 0;
}
pub proof fn lemma_soff(c: &Context, i: int, k: int)
    requires c.wf(), 0 <= i <= k <= c.n(),
    ensures 0 <= soff(c, i) <= soff(c, k) <= 8 * (k * c.d()), soff(c, k) <= 8 * (c.n() * c.d()),
    decreases k,
{
    assert(k * c.d() <= c.n() * c.d()) by (nonlinear_arith) requires k <= c.n(), c.d() >= 0;
    if k > 0 {
        lemma_slen(c, k - 1);
        assert(k * c.d() == (k - 1) * c.d() + c.d()) by (nonlinear_arith);
        if i < k { lemma_soff(c, i, k - 1); } else { lemma_soff(c, k - 1, k - 1); }
    }
}
proof fn lemma_pow2_mult8(d: int)
    requires is_pow2(d), d >= 8,
    ensures d % 8 == 0,
{
    let k = choose|k: nat| d == #[trigger] pow2(k);
    lemma2_to64();
    if k < 3 { assert(pow2(0) == 1 && pow2(1) == 2 && pow2(2) == 4); assert(k == 0 || k == 1 || k == 2); }
    lemma_pow2_adds(3, (k - 3) as nat);
    assert(d == 8 * pow2((k - 3) as nat));
}
/// the decoded rows so far
#[verifier::opaque]
pub open spec fn dec_rows(b: Seq<u8>, v: Seq<u64>, c: &Context, n: int) -> bool {
    v.len() == n * c.d() && forall|i: int| 0 <= i < n ==> packed(d8(b.subrange(soff(c, i), soff(c, i + 1))), 8, d64(#[trigger] rowof(v, c, i)), nbits_of(c.p(i))) && canon(rowof(v, c, i), c.p(i))
}
proof fn lemma_row_in(i: int, n: int, d: int)
    requires 0 <= i < n, d >= 0,
    ensures 0 <= i * d <= (i + 1) * d <= n * d, (i + 1) * d == i * d + d,
{ assert(0 <= i * d && (i + 1) * d <= n * d && (i + 1) * d == i * d + d) by (nonlinear_arith) requires 0 <= i < n, d >= 0; }
proof fn lemma_dec_step(b: Seq<u8>, v: Seq<u64>, w: Seq<u64>, c: &Context, n: int)
    requires dec_rows(b, v, c, n), 0 <= n, c.d() >= 0, w.len() == c.d(), canon(w, c.p(n)),
        packed(d8(b.subrange(soff(c, n), soff(c, n + 1))), 8, d64(w), nbits_of(c.p(n))),
    ensures dec_rows(b, v + w, c, n + 1),
{
    reveal(dec_rows);
    let u = v + w; let d = c.d();
    assert((n + 1) * d == n * d + d) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < n + 1 implies packed(d8(b.subrange(soff(c, i), soff(c, i + 1))), 8, d64(#[trigger] rowof(u, c, i)), nbits_of(c.p(i))) && canon(rowof(u, c, i), c.p(i)) by {
        lemma_row_in(i, n + 1, d);
        if i < n { lemma_row_in(i, n, d); assert(rowof(u, c, i) =~= rowof(v, c, i)); } else { assert(rowof(u, c, i) =~= w); }
    }
}
proof fn lemma_dec_done(b: Seq<u8>, v: Seq<u64>, c: &Context)
    requires dec_rows(b, v, c, c.n()), c.d() >= 0, b.len() == soff(c, c.n()),
    ensures decoded(b, v, c), full_ok(v, c),
{
    reveal(dec_rows);
    assert forall|i: int, j: int| 0 <= i < c.n() && 0 <= j < c.d() implies #[trigger] v[i * c.d() + j] < c.p(i) by {
        lemma_row_in(i, c.n(), c.d());
        assert(canon(rowof(v, c, i), c.p(i))); assert(rowof(v, c, i)[j] == v[i * c.d() + j]);
    }
}
#[verifier::opaque]
pub open spec fn enc_rows(b: Seq<u8>, rows: Seq<Vec<u64>>, c: &Context, n: int) -> bool {
    b.len() == soff(c, n) && forall|i: int| 0 <= i < n ==> packed(d64((#[trigger] rows[i])@), nbits_of(c.p(i)), d8(b.subrange(soff(c, i), soff(c, i + 1))), 8)
}
proof fn lemma_enc_step(b: Seq<u8>, w: Seq<u8>, rows: Seq<Vec<u64>>, c: &Context, n: int)
    requires enc_rows(b, rows, c, n), 0 <= n < c.n(), c.wf(), w.len() == slen(c, n), packed(d64(rows[n]@), nbits_of(c.p(n)), d8(w), 8),
    ensures enc_rows(b + w, rows, c, n + 1),
{
    reveal(enc_rows);
    let u = b + w;
    assert forall|i: int| 0 <= i < n + 1 implies packed(d64((#[trigger] rows[i])@), nbits_of(c.p(i)), d8(u.subrange(soff(c, i), soff(c, i + 1))), 8) by {
        lemma_soff(c, i, i + 1); lemma_soff(c, i + 1, n + 1);
        if i < n { lemma_soff(c, i + 1, n); assert(u.subrange(soff(c, i), soff(c, i + 1)) =~= b.subrange(soff(c, i), soff(c, i + 1))); } else { assert(u.subrange(soff(c, i), soff(c, i + 1)) =~= w); }
    }
}
impl Rq {
    /// derived: every field zero or empty
    #[verifier::external_body]
    pub fn default() -> (r: Rq)
        ensures r.representation == 0, r.degree == 0, r.coefficients@.len() == 0, !r.allow_variable_time,
    { unimplemented!() }
}
/// Parsing what the serialisation wrote gives the same coefficient matrix.
pub proof fn lemma_proto_round_trip(b: Seq<u8>, rows: Seq<Vec<u64>>, v: Seq<u64>, c: &Context)
    requires c.wf(), dims(rows, c.n(), c.d()), forall|i: int| 0 <= i < c.n() ==> canon((#[trigger] rows[i])@, c.p(i)),
        encoded(b, rows, c), decoded(b, v, c), v.len() == c.n() * c.d(),
    ensures reshaped(v, rows, c.n(), c.d()),
{
    assert forall|i: int, j: int| 0 <= i < c.n() && 0 <= j < c.d() implies (#[trigger] rows[i]@[j]) == v[i * c.d() + j] by {
        assert(c.wf_i(i)); lemma_slen(c, i);
        lemma_row_in(i, c.n(), c.d());
        lemma_serialize_round_trip(&c.q@[i], rows[i]@, b.subrange(soff(c, i), soff(c, i + 1)), rowof(v, c, i));
        assert(rowof(v, c, i)[j] == v[i * c.d() + j]);
    }
}
proof fn lemma_ceil_exact(len: int, d: int, n: int)
    requires len * 8 == d * n, n >= 1, d >= 0, len >= 0,
    ensures ceil_div(len * 8, n) == d,
{ lemma_fundamental_div_mod_converse(len * 8 + n - 1, n, d, n - 1); }
/// the coefficient form a message describes
pub open spec fn rq_pb(m: &Rq, q: &Poly<PowerBasis>) -> bool {
    exists|v: Seq<u64>| #[trigger] decoded(m.coefficients@, v, &*q.ctx) && reshaped(v, q.rows(), q.n(), q.d())
}
pub open spec fn rq_of<R: RepresentationTag>(m: &Rq, p: &Poly<R>) -> bool {
    exists|q: Poly<PowerBasis>| q.wf() && #[trigger] rq_pb(m, &q) && (if R::tag() == Representation::PowerBasis { sameval(&q, p) } else { fwd_of(&q, p) })
}
/// a message the serialisation writes
pub open spec fn rq_wellformed(m: &Rq, c: &Context) -> bool {
    m.degree == c.degree && exists|rows: Seq<Vec<u64>>| dims(rows, c.n(), c.d()) && (forall|i: int| 0 <= i < c.n() ==> canon((#[trigger] rows[i])@, c.p(i))) && #[trigger] encoded(m.coefficients@, rows, c)
}
//@ fn crates/fhe-math/src/rq/convert.rs parse_proto
//@ subst value.representation.try_into() => vrepr(value.representation)
//@ ret r
//@ spec
    requires ctx.wf(),
    ensures r matches Ok(t) ==> tag_i32(t.0) == value.representation && value.degree == ctx.degree && t.2 == variable_time
            && full_ok(t.1@, &**ctx) && decoded(value.coefficients@, t.1@, &**ctx),
        1 <= value.representation <= 3 && rq_wellformed(value, &**ctx) ==> r is Ok,
//@ start
    proof { lemma_ctx_fits(&**ctx); assert(8 <= ctx.degree); lemma_pow2_mult8(ctx.d()); }
//@ loop 0
    invariant
        n_0 == ctx.n(), expected_nbytes == soff(&**ctx, i_0 as int), degree == ctx.degree,
//@ loop-start 0
    proof { assert(ctx.wf_i(i_0 as int)); lemma_slen(&**ctx, i_0 as int); lemma_soff(&**ctx, i_0 as int, i_0 + 1); assert(degree * 64 <= usize::MAX); }
//@ loop-before 1
    proof { reveal(dec_rows); assert(power_basis_coefficients@.len() == 0); }
//@ loop 1
    invariant
        n_1 == ctx.n(), index == soff(&**ctx, i_1 as int), degree == ctx.degree, value.coefficients@.len() == soff(&**ctx, ctx.n()),
        dec_rows(value.coefficients@, power_basis_coefficients@, &**ctx, i_1 as int),
//@ loop-start 1
    proof {
        let c: Context = **ctx;
        assert(c.wf_i(i_1 as int)); lemma_slen(&c, i_1 as int); lemma_soff(&c, i_1 as int, i_1 + 1); lemma_soff(&c, i_1 + 1, c.n());
        lemma_nbits(c.moduli@[i_1 as int]);
        assert(value.coefficients@.subrange(soff(&c, i_1 as int), soff(&c, i_1 + 1)).len() == slen(&c, i_1 as int));
        lemma_ceil_exact(slen(&c, i_1 as int), c.d(), nbits_of(c.p(i_1 as int)) as int);
    }
    let ghost pre = power_basis_coefficients@;
//@ loop-end 1
    proof {
        let c: Context = **ctx;
        assert(power_basis_coefficients@ =~= pre + v@);
        lemma_dec_step(value.coefficients@, pre, v@, &c, i_1 as int);
    }
//@ loop 2
    invariant
        n_2 == v@.len(), acc_2 <==> exists|k: int| 0 <= k < i_2 && #[trigger] v@[k] >= ctx.q@[i_1 as int].p,
//@ loop-after 2
    proof {
        let c: Context = **ctx; let i = i_1 as int;
        assert forall|rows: Seq<Vec<u64>>| dims(rows, c.n(), c.d()) && (forall|i: int| 0 <= i < c.n() ==> canon((#[trigger] rows[i])@, c.p(i))) && #[trigger] encoded(value.coefficients@, rows, &c) implies !acc_2 by {
            assert(canon(rows[i]@, c.p(i)));
            lemma_serialize_round_trip(&c.q@[i], rows[i]@, value.coefficients@.subrange(soff(&c, i), soff(&c, i + 1)), v@);
        }
    }
//@ loop-after 1
    proof { let c: Context = **ctx; lemma_dec_done(value.coefficients@, power_basis_coefficients@, &c); }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs From<&Poly<R>>@Rq::from as=Rq::from_poly
//@ vec 0 u8
//@ sig
    pub fn from_poly<R: RepresentationTag>(p: &Poly<R>) -> (r: Rq)
//@ spec
    requires p.wf(), p.d() <= u32::MAX,
    ensures r.degree == p.ctx.degree, r.representation == tag_i32(R::tag()), !r.allow_variable_time,
        exists|q: Poly<PowerBasis>| q.wf() && encoded(r.coefficients@, q.rows(), &*p.ctx) && (if R::tag() == Representation::PowerBasis { sameval(&q, p) } else { fwd_of(&q, p) }),
//@ loop-before 0
    proof { lemma_ctx_fits(&*p.ctx); reveal(enc_rows); let c: Context = *p.ctx; assert(enc_rows(Seq::<u8>::empty(), q.rows(), &c, 0)); }
//@ loop 0
    invariant
        n_0 == p.n(), q.wf(), q.ctx == p.ctx, enc_rows(out_0@, q.rows(), &*p.ctx, i_0 as int),
//@ loop-start 0
    let ghost pre = out_0@;
    proof { assert(p.ctx.wf_i(i_0 as int)); lemma_slen(&*p.ctx, i_0 as int); assert(canon(q.rows()[i_0 as int]@, q.p(i_0 as int))); }
//@ loop-end 0
    proof { let c: Context = *p.ctx; assert(out_0@ =~= pre + v_u1@); lemma_enc_step(pre, v_u1@, q.rows(), &c, i_0 as int); }
//@ loop-after 0
    proof { reveal(enc_rows); let c: Context = *p.ctx; assert(encoded(out_0@, q.rows(), &c)); }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&Rq>@Poly<PowerBasis>::try_convert_from as=Poly<PowerBasis>::from_rq
//@ ret r
//@ spec
    requires ctx.wf(),
    ensures r matches Ok(p) ==> p.wf() && fresh(&p, ctx, variable_time) && value.representation == 1 && rq_of(value, &p),
        value.representation == 1 && rq_wellformed(value, &**ctx) ==> r is Ok,
//@ ret-hint
    proof { if let Ok(p) = &r_ { assert(rq_pb(value, &r_->Ok_0)); } }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&Rq>@Poly<Ntt>::try_convert_from as=Poly<Ntt>::from_rq
//@ ret r
//@ spec
    requires ctx.wf(),
    ensures r matches Ok(p) ==> p.wf() && fresh(&p, ctx, variable_time) && value.representation == 2 && rq_of(value, &p),
        value.representation == 2 && rq_wellformed(value, &**ctx) ==> r is Ok,
//@ start
    let ghost mut p0: Poly<PowerBasis> = arbitrary();
//@ after-let p
    proof { p0 = p; }
//@ ret-hint
    proof { if r_ is Ok { assert(rq_pb(value, &p0)); } }
//@ end
//@ fn crates/fhe-math/src/rq/convert.rs TryConvertFrom<&Rq>@Poly<NttShoup>::try_convert_from as=Poly<NttShoup>::from_rq
//@ ret r
//@ spec
    requires ctx.wf(),
    ensures r matches Ok(p) ==> p.wf() && fresh(&p, ctx, variable_time) && value.representation == 3 && rq_of(value, &p),
        value.representation == 3 && rq_wellformed(value, &**ctx) ==> r is Ok,
//@ start
    let ghost mut p0: Poly<PowerBasis> = arbitrary();
//@ after-let p
    proof { p0 = p; }
//@ ret-hint
    proof { if r_ is Ok { assert(rq_pb(value, &p0)); } }
//@ end
/// two transforms of the same polynomial
pub proof fn lemma_fwd_unique<R: RepresentationTag>(q: &Poly<PowerBasis>, q2: &Poly<PowerBasis>, p: &Poly<R>, p2: &Poly<R>)
    requires p.wfc(), p2.wfc(), fwd_of(q, p), fwd_of(q2, p2), p.ctx == p2.ctx, forall|i: int| 0 <= i < p.n() ==> (#[trigger] q.rows()[i])@ == q2.rows()[i]@,
    ensures forall|i: int| 0 <= i < p.n() ==> (#[trigger] p.rows()[i])@ =~= p2.rows()[i]@,
{
    assert forall|i: int| 0 <= i < p.n() implies (#[trigger] p.rows()[i])@ =~= p2.rows()[i]@ by {
        assert(p.ctx.wf_i(i)); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(p2.rows()[i]@, p.p(i)));
        assert(p2.ctx.ops@[i].is_fwd(p2.rows()[i]@, vals(q2.rows()[i]@)));
        assert forall|k: int| 0 <= k < p.d() implies p.rows()[i]@[k] == p2.rows()[i]@[k] by {
            let e = eval(vals(q.rows()[i]@), p.ctx.ops@[i].point(k));
            assert(eqm(p.rows()[i]@[k] as int, e, p.p(i))); assert(eqm(p2.rows()[i]@[k] as int, e, p.p(i)));
            lemma_eqm_canon(p.rows()[i]@[k] as int, p2.rows()[i]@[k] as int, e, p.p(i));
        }
    }
}
proof fn lemma_eqm_canon(a: int, b: int, e: int, p: int)
    requires eqm(a, e, p), eqm(b, e, p), 0 <= a < p, 0 <= b < p,
    ensures a == b,
{ eqm_sym(b, e, p); eqm_trans(a, e, b, p); eqm_small(a, b, p); }
/// C13 for polynomials: what from_rq accepts from the message that from_poly writes is the polynomial itself.
pub proof fn lemma_rq_round_trip<R: RepresentationTag>(p: &Poly<R>, m: &Rq, p2: &Poly<R>)
    requires p.wf(), p2.wf(), p2.ctx == p.ctx, rq_of(m, p2),
        exists|q: Poly<PowerBasis>| q.wf() && encoded(m.coefficients@, q.rows(), &*p.ctx) && (if R::tag() == Representation::PowerBasis { sameval(&q, p) } else { fwd_of(&q, p) }),
    ensures forall|i: int| 0 <= i < p.n() ==> (#[trigger] p.rows()[i])@ =~= p2.rows()[i]@,
{
    let c: Context = *p.ctx;
    let q = choose|q: Poly<PowerBasis>| q.wf() && encoded(m.coefficients@, q.rows(), &*p.ctx) && (if R::tag() == Representation::PowerBasis { sameval(&q, p) } else { fwd_of(&q, p) });
    let q2 = choose|q: Poly<PowerBasis>| q.wf() && #[trigger] rq_pb(m, &q) && (if R::tag() == Representation::PowerBasis { sameval(&q, p2) } else { fwd_of(&q, p2) });
    let v = choose|v: Seq<u64>| #[trigger] decoded(m.coefficients@, v, &*q2.ctx) && reshaped(v, q2.rows(), q2.n(), q2.d());
    lemma_proto_round_trip(m.coefficients@, q.rows(), v, &c);
    assert forall|i: int| 0 <= i < p.n() implies (#[trigger] q.rows()[i])@ =~= q2.rows()[i]@ by {
        assert forall|j: int| 0 <= j < p.d() implies q.rows()[i]@[j] == q2.rows()[i]@[j] by { assert(q.rows()[i]@[j] == v[i * p.d() + j]); assert(q2.rows()[i]@[j] == v[i * p.d() + j]); }
    }
    if R::tag() != Representation::PowerBasis { lemma_fwd_unique(&q, &q2, p, p2); }
}
