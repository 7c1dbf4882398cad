//@ import poly
//@ import polyops
//@ import brev
// ---------------------------------------------------------------------------
// fhe-math/src/rq/mod.rs : substitution X -> X^e and multiplication by X^-k
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power2::pow2;
use std::sync::Arc;
use std::marker::PhantomData;
use vstd::std_specs::bits::u64_leading_zeros;

//@ struct crates/fhe-math/src/rq/mod.rs SubstitutionExponent

/// X^(e(2j+1)) = X^(2 pw + 1) modulo 2d
pub open spec fn pw(e: int, j: int) -> int { (e - 1) / 2 + j * e }
impl SubstitutionExponent {
    pub open spec fn wf(&self) -> bool {
        let d = self.ctx.d();
        &&& self.ctx.wf() && self.ctx.degree <= 0x4000_0000
        &&& self.exponent % 2 == 1 && self.exponent < 2 * d
        &&& self.power_bitrev@.len() == d
        &&& forall|j: int| 0 <= j < d ==> (#[trigger] self.power_bitrev@[j]) == brev(pw(self.exponent as int, j) % d, lgc(d))
    }
}
/// the admissible sizes, with their logarithm
pub proof fn lemma_deg(c: &Context)
    requires c.wf(),
    ensures c.d() == pow2(lgc(c.d())), 3 <= lgc(c.d()) <= 60, u64_leading_zeros(c.degree as u64) == 63 - lgc(c.d()),
{ lemma_lgs(c.degree, lgc(c.d())); }

//@ fn crates/fhe-math/src/rq/mod.rs SubstitutionExponent::new
//@ ret r
//@ subst ctx.degree.leading_zeros() => (ctx.degree as u64).leading_zeros()
//@ vec 0 usize
//@ spec
    requires ctx.wf(), ctx.degree <= 0x4000_0000,
    ensures r is Ok <==> exponent % 2 == 1,
        r matches Ok(s) ==> s.wf() && s.ctx == *ctx && s.exponent == exponent as int % (2 * ctx.d()),
//@ start
    let ghost e0 = exponent;
    let ghost d = ctx.d();
    let ghost lg = lgc(d);
    proof {
        lemma_deg(&**ctx);
        let e = exponent % (2 * ctx.degree) as usize;
        assert((e & 1) == e % 2) by (bit_vector);
        lemma_fundamental_div_mod(exponent as int, 2 * d);
        let k = exponent as int / (2 * d);
        assert(exponent as int == 2 * (d * k) + e) by (nonlinear_arith) requires exponent as int == (2 * d) * k + e;
        assert(exponent % 2 == e % 2);
    }
//@ loop-before 0
    proof { assert((exponent & 1) == exponent % 2) by (bit_vector); assert(0 * exponent == 0); }
//@ loop 0
    invariant
        out_0@.len() == i_0, n_0 == d, d == ctx.d(), lg == lgc(d), d == pow2(lg), 3 <= lg <= 60, ctx.wf(), ctx.degree <= 0x4000_0000, mask == d - 1,
        u64_leading_zeros(ctx.degree as u64) == 63 - lg,
        exponent < 2 * d, exponent % 2 == 1, power == pw(exponent as int, i_0 as int),
        forall|j: int| 0 <= j < i_0 ==> (#[trigger] out_0@[j]) == brev(pw(exponent as int, j) % d, lg),
//@ loop-start 0
    proof {
        lemma_mask(power, ctx.degree);
        lemma_rev_shift(ctx.degree, power & mask, lg);
        let (i, e) = (i_0 as int, exponent as int);
        assert((i + 1) * e == i * e + e) by (nonlinear_arith);
        assert(i * e <= 0x4000_0000 * 0x8000_0000) by (nonlinear_arith) requires 0 <= i <= 0x4000_0000, 0 <= e <= 0x8000_0000;
    }
//@ end

/// where coefficient j goes, and whether its sign changes
pub open spec fn tgt(e: int, d: int, j: int) -> int { (j * e) % d }
pub open spec fn flip(e: int, d: int, j: int) -> bool { (j * e) % (2 * d) >= d }
pub open spec fn sgv(v: int, neg: bool, p: int) -> int { if neg { (-v) % p } else { v } }
/// r is a(X^e), in coefficient form
pub open spec fn sub_pb(r: Seq<u64>, a: Seq<u64>, e: int, d: int, p: int) -> bool {
    forall|j: int| 0 <= j < d ==> r[#[trigger] tgt(e, d, j)] == sgv(a[j] as int, flip(e, d, j), p)
}
/// r is a(X^e), in NTT form: the value at w^(2j+1) is that of a at w^(e(2j+1))
pub open spec fn sub_ntt(r: Seq<u64>, a: Seq<u64>, e: int, d: int) -> bool {
    forall|j: int| 0 <= j < d ==> r[#[trigger] brev(j, lgc(d))] == a[brev(pw(e, j) % d, lgc(d))]
}
pub proof fn lemma_tgt_inj(e: int, d: int, j: int, k: int)
    requires e % 2 == 1, is_pow2(d), d >= 2, 0 <= j < d, 0 <= k < d, tgt(e, d, j) == tgt(e, d, k),
    ensures j == k,
{ lemma_odd_inj(j, k, e, d); }
/// the row after the first m coefficients have been placed
#[verifier::opaque]
pub open spec fn pb_row(r: Seq<u64>, a: Seq<u64>, e: int, d: int, p: int, m: int) -> bool {
    &&& r.len() == d && canon(r, p)
    &&& forall|j: int| 0 <= j < m ==> r[#[trigger] tgt(e, d, j)] == sgv(a[j] as int, flip(e, d, j), p)
    &&& forall|j: int| m <= j < d ==> r[#[trigger] tgt(e, d, j)] == 0
}
/// the row after the first m values have been placed
#[verifier::opaque]
pub open spec fn ntt_row(r: Seq<u64>, a: Seq<u64>, e: int, d: int, p: int, m: int) -> bool {
    &&& r.len() == d && canon(r, p)
    &&& forall|j: int| 0 <= j < m ==> r[#[trigger] brev(j, lgc(d))] == a[brev(pw(e, j) % d, lgc(d))]
}
#[verifier::opaque]
pub open spec fn sh_row(s: Seq<u64>, q: Seq<u64>, d: int, p: int, m: int) -> bool {
    s.len() == d && forall|j: int| 0 <= j < m ==> s[#[trigger] brev(j, lgc(d))] == shoup_of(q[brev(j, lgc(d))] as int, p)
}
proof fn lemma_pb_zero(r: Seq<u64>, a: Seq<u64>, e: int, d: int, p: int)
    requires r.len() == d, p > 0, d > 0, forall|k: int| 0 <= k < d ==> #[trigger] r[k] == 0,
    ensures pb_row(r, a, e, d, p, 0), ntt_row(r, a, e, d, p, 0),
{
    reveal(pb_row); reveal(ntt_row);
    assert forall|j: int| 0 <= j < d implies r[#[trigger] tgt(e, d, j)] == 0 by { lemma_mod_bound(j * e, d); }
}
proof fn lemma_pb_get(r: Seq<u64>, a: Seq<u64>, e: int, d: int, p: int, m: int)
    requires pb_row(r, a, e, d, p, m), 0 <= m < d,
    ensures r.len() == d, canon(r, p), r[tgt(e, d, m)] == 0, 0 <= tgt(e, d, m) < d,
{ reveal(pb_row); lemma_mod_bound(m * e, d); }
proof fn lemma_pb_step(r: Seq<u64>, t: Seq<u64>, a: Seq<u64>, e: int, d: int, p: int, m: int)
    requires pb_row(r, a, e, d, p, m), 0 <= m < d, e % 2 == 1, is_pow2(d), d >= 2, canon(a, p), a.len() == d,
        t.len() == d, forall|k: int| 0 <= k < d && k != tgt(e, d, m) ==> #[trigger] t[k] == r[k],
        t[tgt(e, d, m)] == sgv(a[m] as int, flip(e, d, m), p),
    ensures pb_row(t, a, e, d, p, m + 1),
{
    reveal(pb_row);
    lemma_mod_bound(m * e, d);
    assert(a[m] < p);
    lemma_mod_bound(-(a[m] as int), p);
    assert forall|j: int| 0 <= j < d && j != m implies #[trigger] tgt(e, d, j) != tgt(e, d, m) && 0 <= tgt(e, d, j) < d by {
        lemma_mod_bound(j * e, d);
        if tgt(e, d, j) == tgt(e, d, m) { lemma_tgt_inj(e, d, j, m); }
    }
}
proof fn lemma_pb_end(r: Seq<u64>, a: Seq<u64>, e: int, d: int, p: int)
    requires pb_row(r, a, e, d, p, d),
    ensures sub_pb(r, a, e, d, p), canon(r, p), r.len() == d,
{ reveal(pb_row); }
proof fn lemma_ntt_step(r: Seq<u64>, t: Seq<u64>, a: Seq<u64>, e: int, d: int, p: int, m: int)
    requires ntt_row(r, a, e, d, p, m), 0 <= m < d, d == pow2(lgc(d)), canon(a, p), a.len() == d,
        t == r.update(brev(m, lgc(d)), a[brev(pw(e, m) % d, lgc(d))]),
    ensures ntt_row(t, a, e, d, p, m + 1),
{
    reveal(ntt_row);
    let lg = lgc(d);
    lemma_brev_invol(m, lg);
    lemma_mod_bound(pw(e, m), d);
    lemma_brev_invol(pw(e, m) % d, lg);
    assert forall|j: int| 0 <= j < m implies #[trigger] brev(j, lg) != brev(m, lg) && 0 <= brev(j, lg) < d by {
        lemma_brev_invol(j, lg);
        if brev(j, lg) == brev(m, lg) { lemma_brev_inj(j, m, lg); }
    }
}
proof fn lemma_ntt_end(r: Seq<u64>, a: Seq<u64>, e: int, d: int, p: int)
    requires ntt_row(r, a, e, d, p, d),
    ensures sub_ntt(r, a, e, d), canon(r, p), r.len() == d,
{ reveal(ntt_row); }
proof fn lemma_sh_step(r: Seq<u64>, t: Seq<u64>, q: Seq<u64>, a: Seq<u64>, sa: Seq<u64>, e: int, d: int, p: int, m: int)
    requires sh_row(r, q, d, p, m), 0 <= m < d, d == pow2(lgc(d)), shoups(a, sa, p), sub_ntt(q, a, e, d), a.len() == d,
        t == r.update(brev(m, lgc(d)), sa[brev(pw(e, m) % d, lgc(d))]),
    ensures sh_row(t, q, d, p, m + 1),
{
    reveal(sh_row);
    let lg = lgc(d);
    lemma_brev_invol(m, lg);
    lemma_mod_bound(pw(e, m), d);
    lemma_brev_invol(pw(e, m) % d, lg);
    assert(q[brev(m, lg)] == a[brev(pw(e, m) % d, lg)]);
    assert(sa[brev(pw(e, m) % d, lg)] == shoup_of(a[brev(pw(e, m) % d, lg)] as int, p));
    assert forall|j: int| 0 <= j < m implies #[trigger] brev(j, lg) != brev(m, lg) && 0 <= brev(j, lg) < d by {
        lemma_brev_invol(j, lg);
        if brev(j, lg) == brev(m, lg) { lemma_brev_inj(j, m, lg); }
    }
}
proof fn lemma_sh_zero(s: Seq<u64>, q: Seq<u64>, d: int, p: int)
    requires s.len() == d,
    ensures sh_row(s, q, d, p, 0),
{ reveal(sh_row); }
proof fn lemma_sh_end(s: Seq<u64>, q: Seq<u64>, d: int, p: int)
    requires sh_row(s, q, d, p, d), d == pow2(lgc(d)), q.len() == d,
    ensures shoups(q, s, p),
{
    reveal(sh_row);
    assert forall|k: int| 0 <= k < d implies (#[trigger] s[k]) == shoup_of(q[k] as int, p) by { lemma_brev_invol(k, lgc(d)); assert(brev(brev(k, lgc(d)), lgc(d)) == k); }
}
/// the fields a substitution does not touch
pub open spec fn frame<R: RepresentationTag>(q: &Poly<R>, a: &Poly<R>) -> bool {
    q.ctx == a.ctx && !q.has_lazy_coefficients && q.allow_variable_time_computations == a.allow_variable_time_computations
}
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::substitute as=<R:RepresentationTag>Poly<R>::substitute
//@ ret r
//@ spec
    requires self.wf(), i.wf(),
    ensures r is Ok <==> i.ctx.degree == self.ctx.degree,
        r matches Ok(q) ==> q.wf() && q.ctx == self.ctx && q.allow_variable_time_computations == self.allow_variable_time_computations,
        r matches Ok(q) ==> forall|x: int| 0 <= x < self.n() ==> (if R::tag() == Representation::PowerBasis { sub_pb((#[trigger] q.rows()[x])@, self.rows()[x]@, i.exponent as int, self.d(), self.p(x)) }
            else { sub_ntt(q.rows()[x]@, self.rows()[x]@, i.exponent as int, self.d()) }),
//@ start
    let ghost d = self.d();
    let ghost n = self.n();
    let ghost lg = lgc(d);
    let ghost e = i.exponent as int;
    let ghost pb = i.power_bitrev@;
    let ghost ar = self.coefficients.rows@;
    let ghost mut qr = ar;
    proof {
        lemma_deg(&*self.ctx);
        assert forall|j: int| 0 <= j < d && i.ctx.degree == self.ctx.degree implies 0 <= #[trigger] pb[j] < d && 0 <= self.ctx.bitrev@[j] < d by {
            lemma_mod_bound(pw(e, j), d);
            lemma_brev_invol(pw(e, j) % d, lg);
            lemma_brev_invol(j, lg);
            assert(self.ctx.bitrev@[j] == brev(j, lg));
        }
    }
//@ after-let q
    proof {
        assert forall|x: int| 0 <= x < n implies ntt_row((#[trigger] q.coefficients.rows@[x])@, ar[x]@, e, d, self.p(x), 0) && pb_row(q.coefficients.rows@[x]@, ar[x]@, e, d, self.p(x), 0) by {
            assert(self.ctx.wf_i(x));
            lemma_pb_zero(q.coefficients.rows@[x]@, ar[x]@, e, d, self.p(x));
        }
        if R::tag() == Representation::NttShoup {
            assert(self.shoup_ok() && q.shoup_ok());
            assert forall|x: int| 0 <= x < n implies (#[trigger] q.coefficients_shoup->Some_0.rows@[x])@.len() == d by { assert(shoups(q.rows()[x]@, q.coefficients_shoup->Some_0.rows@[x]@, q.p(x))); }
        }
    }
//@ loop 0
    invariant
        n_0 == n, dims(q.coefficients.rows@, n, d), frame(&q, self),
        q.coefficients_shoup is Some <==> R::tag() == Representation::NttShoup,
        q.coefficients_shoup matches Some(m) ==> dims(m.rows@, n, d),
        forall|x: int| 0 <= x < n ==> ntt_row((#[trigger] q.coefficients.rows@[x])@, ar[x]@, e, d, self.p(x), if x < i_0 { d } else { 0 }),
//@ loop-before 1
    let ghost q1 = q;
    proof { assert(canon(ar[i_0 as int]@, self.p(i_0 as int))); }
//@ loop 1
    invariant
        0 <= i_0 < n, n_1 == d, dims(q.coefficients.rows@, n, d), frame(&q, self),
        forall|x: int| 0 <= x < n && x != i_0 ==> #[trigger] q.coefficients.rows@[x] == q1.coefficients.rows@[x],
        ntt_row(q.coefficients.rows@[i_0 as int]@, ar[i_0 as int]@, e, d, self.p(i_0 as int), i_1 as int),
        q.coefficients_shoup == q1.coefficients_shoup,
//@ loop-start 1
    proof {
        assert(pb[i_1 as int] < d && self.ctx.bitrev@[i_1 as int] == brev(i_1 as int, lg));
    }
    let ghost q2 = q.coefficients.rows@;
//@ loop-end 1
    proof {
        lemma_ntt_step(q2[i_0 as int]@, q.coefficients.rows@[i_0 as int]@, ar[i_0 as int]@, e, d, self.p(i_0 as int), i_1 as int);
    }
//@ loop-after 0
    proof {
        qr = q.coefficients.rows@;
        assert forall|x: int| 0 <= x < n implies sub_ntt((#[trigger] qr[x])@, ar[x]@, e, d) && canon(qr[x]@, self.p(x)) by { lemma_ntt_end(qr[x]@, ar[x]@, e, d, self.p(x)); }
    }
//@ loop 2
    invariant
        n_2 == n, v_m1.rows@.len() == n, *v_m2 == self.coefficients_shoup->Some_0,
        forall|x: int| 0 <= x < n ==> (#[trigger] v_m1.rows@[x])@.len() == d,
        forall|x: int| 0 <= x < i_2 ==> shoups((#[trigger] qr[x])@, v_m1.rows@[x]@, self.p(x)),
//@ loop-before 3
    let ghost s1 = v_m1.rows@;
    proof {
        assert(shoups(ar[i_2 as int]@, v_m2.rows@[i_2 as int]@, self.p(i_2 as int))); assert(sub_ntt(qr[i_2 as int]@, ar[i_2 as int]@, e, d));
        lemma_sh_zero(v_m1.rows@[i_2 as int]@, qr[i_2 as int]@, d, self.p(i_2 as int));
    }
//@ loop 3
    invariant
        0 <= i_2 < n, n_3 == d, v_m1.rows@.len() == n, *v_m2 == self.coefficients_shoup->Some_0,
        forall|x: int| 0 <= x < n ==> (#[trigger] v_m1.rows@[x])@.len() == d,
        forall|x: int| 0 <= x < n && x != i_2 ==> #[trigger] v_m1.rows@[x] == s1[x],
        sh_row(v_m1.rows@[i_2 as int]@, qr[i_2 as int]@, d, self.p(i_2 as int), i_3 as int),
//@ loop-start 3
    let ghost s2 = v_m1.rows@;
    proof { assert(pb[i_3 as int] < d && self.ctx.bitrev@[i_3 as int] == brev(i_3 as int, lg)); }
//@ loop-end 3
    proof { lemma_sh_step(s2[i_2 as int]@, v_m1.rows@[i_2 as int]@, qr[i_2 as int]@, ar[i_2 as int]@, v_m2.rows@[i_2 as int]@, e, d, self.p(i_2 as int), i_3 as int); }
//@ loop-after 3
    proof { lemma_sh_end(v_m1.rows@[i_2 as int]@, qr[i_2 as int]@, d, self.p(i_2 as int)); }
//@ loop-before 4
    proof { assert(0 * e == 0); }
//@ loop 4
    invariant
        n_4 == d, l_4 == 0, mask == d - 1, power == i_4 * e, dims(q.coefficients.rows@, n, d), frame(&q, self),
        forall|x: int| 0 <= x < n ==> pb_row((#[trigger] q.coefficients.rows@[x])@, ar[x]@, e, d, self.p(x), i_4 as int),
        q.coefficients_shoup is None,
//@ loop-start 4
    proof {
        lemma_mask(power, self.ctx.degree);
        let (z, ee) = (i_4 as int, e);
        assert((z + 1) * ee == z * ee + ee) by (nonlinear_arith);
        assert(z * ee <= 0x4000_0000 * 0x8000_0000) by (nonlinear_arith) requires 0 <= z <= 0x4000_0000, 0 <= ee <= 0x8000_0000;
        assert(power as int % d == tgt(e, d, z));
        lemma_mod_bound(power as int, d);
    }
//@ loop 5
    invariant
        0 <= i_4 < d, n_5 == n, dims(q.coefficients.rows@, n, d), frame(&q, self), v_j3 == tgt(e, d, i_4 as int), v_j4 == i_4, power == i_4 * e,
        v_j3 < d, (power & self.ctx.degree) != 0 <==> flip(e, d, i_4 as int),
        forall|x: int| 0 <= x < n ==> pb_row((#[trigger] q.coefficients.rows@[x])@, ar[x]@, e, d, self.p(x), if x < i_5 { i_4 + 1 } else { i_4 as int }),
        q.coefficients_shoup is None,
//@ loop-start 5
    let ghost q5 = q.coefficients.rows@;
    proof {
        let x = i_5 as int;
        assert(self.ctx.wf_i(x));
        assert(canon(ar[x]@, self.p(x)));
        assert(pb_row(q.coefficients.rows@[x]@, ar[x]@, e, d, self.p(x), i_4 as int));
        lemma_pb_get(q.coefficients.rows@[x]@, ar[x]@, e, d, self.p(x), i_4 as int);
        lemma_small_mod(ar[x]@[i_4 as int] as nat, self.p(x) as nat);
    }
//@ loop-end 5
    proof { lemma_pb_step(q5[i_5 as int]@, q.coefficients.rows@[i_5 as int]@, ar[i_5 as int]@, e, d, self.p(i_5 as int), i_4 as int); }
//@ loop-after 4
    proof {
        assert forall|x: int| 0 <= x < n implies sub_pb((#[trigger] q.coefficients.rows@[x])@, ar[x]@, e, d, self.p(x)) && canon(q.coefficients.rows@[x]@, self.p(x)) by { lemma_pb_end(q.coefficients.rows@[x]@, ar[x]@, e, d, self.p(x)); }
    }
//@ end
/// multiplication by X^s: coefficient k goes to (k + s) mod d with the sign of the wrap
pub open spec fn shift_row(r: Seq<u64>, a: Seq<u64>, s: int, d: int, p: int) -> bool {
    forall|k: int| 0 <= k < d ==> r[#[trigger] ((s + k) % d)] == sgv(a[k] as int, (s + k) % (2 * d) >= d, p)
}
#[verifier::opaque]
pub open spec fn shift_part(r: Seq<u64>, a: Seq<u64>, s: int, d: int, p: int, m: int) -> bool {
    &&& r.len() == d && canon(r, p)
    &&& forall|k: int| 0 <= k < m ==> r[#[trigger] ((s + k) % d)] == sgv(a[k] as int, (s + k) % (2 * d) >= d, p)
}
proof fn lemma_shift_zero(r: Seq<u64>, a: Seq<u64>, s: int, d: int, p: int)
    requires r.len() == d, p > 0, forall|k: int| 0 <= k < d ==> #[trigger] r[k] == 0,
    ensures shift_part(r, a, s, d, p, 0),
{ reveal(shift_part); }
proof fn lemma_shift_step(r: Seq<u64>, a: Seq<u64>, s: int, d: int, p: int, m: int, v: u64)
    requires shift_part(r, a, s, d, p, m), 0 <= m < d, canon(a, p), a.len() == d, v == sgv(a[m] as int, (s + m) % (2 * d) >= d, p),
    ensures shift_part(r.update((s + m) % d, v), a, s, d, p, m + 1),
{
    reveal(shift_part);
    lemma_mod_bound(s + m, d);
    lemma_mod_bound(-(a[m] as int), p);
    assert(a[m] < p);
    assert forall|k: int| 0 <= k < m implies #[trigger] ((s + k) % d) != (s + m) % d && 0 <= (s + k) % d < d by {
        lemma_mod_bound(s + k, d);
        if (s + k) % d == (s + m) % d {
            lemma_fundamental_div_mod(s + k, d); lemma_fundamental_div_mod(s + m, d);
            let (x, y) = ((s + k) / d, (s + m) / d);
            assert(d * y - d * x == m - k);
            assert(false) by (nonlinear_arith) requires d * y - d * x == m - k, 0 < m - k < d;
        }
    }
}
proof fn lemma_shift_end(r: Seq<u64>, a: Seq<u64>, s: int, d: int, p: int)
    requires shift_part(r, a, s, d, p, d),
    ensures shift_row(r, a, s, d, p), canon(r, p), r.len() == d,
{ reveal(shift_part); }
//@ fn crates/fhe-math/src/rq/mod.rs Poly<PowerBasis>::multiply_inverse_power_of_x
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures r is Ok, final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == old(self).allow_variable_time_computations,
        forall|x: int| 0 <= x < old(self).n() ==> shift_row((#[trigger] final(self).rows()[x])@, old(self).rows()[x]@, (-(power as int)) % (2 * old(self).d()), old(self).d(), old(self).p(x)),
//@ start
    let ghost d = self.d();
    let ghost n = self.n();
    let ghost ar = self.coefficients.rows@;
    proof {
        lemma_deg(&*self.ctx);
        let g = self.ctx.degree;
        assert((g << 1) == 2 * g) by (bit_vector) requires g <= 0x1000_0000_0000_0000;
    }
//@ after-let shift
    let ghost s = shift as int;
    proof {
        let (o, w) = (2 * d, power as int);
        lemma_fundamental_div_mod(w, o);
        let k = w / o;
        lemma_mod_bound(w, o);
        if w % o == 0 { lemma_mod_self_0(o); } else { lemma_small_mod((o - w % o) as nat, o as nat); }
        assert(-w == (-k - 1) * o + (o - w % o)) by (nonlinear_arith) requires w == o * k + w % o;
        assert(-w == (-k) * o + (0 - w % o)) by (nonlinear_arith) requires w == o * k + w % o;
        if w % o == 0 { lemma_fundamental_div_mod_converse(-w, o, -k, 0); } else { assert(0 <= o - w % o < o); lemma_fundamental_div_mod_converse(-w, o, -k - 1, o - w % o); }
        assert(s == (-w) % o);
    }
//@ loop-before 0
    proof {
        assert(mask == d - 1);
        assert forall|x: int| 0 <= x < n implies shift_part((#[trigger] new_coefficients.rows@[x])@, ar[x]@, s, d, self.p(x), 0) by {
            assert(self.ctx.wf_i(x));
            lemma_shift_zero(new_coefficients.rows@[x]@, ar[x]@, s, d, self.p(x));
        }
    }
//@ loop 0
    invariant
        n_0 == n, *self == *old(self), dims(new_coefficients.rows@, n, d),
        forall|x: int| 0 <= x < n ==> shift_part((#[trigger] new_coefficients.rows@[x])@, ar[x]@, s, d, self.p(x), if x < i_0 { d } else { 0 }),
//@ loop-before 1
    let ghost q1 = new_coefficients.rows@;
    proof { assert(canon(ar[i_0 as int]@, self.p(i_0 as int))); assert(self.ctx.wf_i(i_0 as int)); }
//@ loop 1
    invariant
        0 <= i_0 < n, n_1 == d, l_1 == 0, *self == *old(self), dims(new_coefficients.rows@, n, d),
        forall|x: int| 0 <= x < n && x != i_0 ==> #[trigger] new_coefficients.rows@[x] == q1[x],
        shift_part(new_coefficients.rows@[i_0 as int]@, ar[i_0 as int]@, s, d, self.p(i_0 as int), i_1 as int),
//@ loop-start 1
    let ghost q2 = new_coefficients.rows@;
    proof {
        let ix = (shift + i_1) as usize;
        lemma_mask(ix, self.ctx.degree);
        assert(ar[i_0 as int]@[i_1 as int] < self.p(i_0 as int));
    }
//@ loop-end 1
    proof {
        let z = i_0 as int;
        let v = new_coefficients.rows@[z]@[(s + i_1) % d];
        lemma_shift_step(q2[z]@, ar[z]@, s, d, self.p(z), i_1 as int, v);
        assert(new_coefficients.rows@[z]@ =~= q2[z]@.update((s + i_1) % d, v));
    }
//@ loop-after 0
    proof {
        assert forall|x: int| 0 <= x < n implies shift_row((#[trigger] new_coefficients.rows@[x])@, ar[x]@, s, d, self.p(x)) && canon(new_coefficients.rows@[x]@, self.p(x)) by { lemma_shift_end(new_coefficients.rows@[x]@, ar[x]@, s, d, self.p(x)); }
    }
//@ end
