//@ import fp
//@ import ringmul
//@ import polysw
// ---------------------------------------------------------------------------
// What a polynomial stands for: the class of an integer polynomial modulo Q and X^n + 1
// (no code; lemmas over the contracts of fhe-math)
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
broadcast use group_poly;
impl Poly<PowerBasis> {
    /// coefficient j is x[j] modulo every modulus
    pub open spec fn coefs(&self, x: Seq<int>) -> bool { x.len() == self.d() && forall|j: int| 0 <= j < self.d() ==> self.is_int(j, #[trigger] x[j]) }
}
impl<R: RepresentationTag> Poly<R> {
    /// in NTT form: every row is the transform of x
    pub open spec fn isx(&self, x: Seq<int>) -> bool {
        x.len() == self.d() && forall|i: int| 0 <= i < self.n() ==> self.ctx.ops@[i].is_fwd((#[trigger] self.rows()[i])@, x)
    }
}
pub proof fn lemma_rem_vals(a: Seq<int>, b: Seq<int>, c: int, t: nat, p: int)
    requires 0 < p, t <= a.len(), a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> eqm(#[trigger] a[k], b[k], p),
    ensures eqm(rem(a, 1, c, 0, t), rem(b, 1, c, 0, t), p),
    decreases t,
{
    eqm_refl(0, p);
    if t > 0 {
        let k = (t - 1) as nat;
        lemma_rem_vals(a, b, c, k, p);
        assert(eqm(a[k as int], b[k as int], p));
        eqm_refl(pow(c, k), p);
        eqm_mul(a[k as int], b[k as int], pow(c, k), pow(c, k), p);
        eqm_add(rem(a, 1, c, 0, k), rem(b, 1, c, 0, k), a[k as int] * pow(c, k), b[k as int] * pow(c, k), p);
        assert(a[0 + (t - 1) * 1] == a[k as int] && b[0 + (t - 1) * 1] == b[k as int]);
    }
}
impl NttOperator {
    /// the transform depends on the residues only
    pub proof fn lemma_fwd_cong(&self, b: Seq<u64>, x: Seq<int>, y: Seq<int>)
        requires self.wfx(), self.is_fwd(b, x), y.len() == x.len(), forall|k: int| 0 <= k < x.len() ==> eqm(#[trigger] x[k], y[k], self.p.p as int),
        ensures self.is_fwd(b, y),
    {
        let p = self.p.p as int;
        assert forall|i: int| 0 <= i < self.size implies eqm(#[trigger] b[i] as int, eval(y, self.point(i)), p) by {
            lemma_rem_vals(x, y, self.point(i), x.len(), p);
            eqm_trans(b[i] as int, eval(x, self.point(i)), eval(y, self.point(i)), p);
        }
    }
}
/// b is the NTT form computed from a
pub open spec fn fwd_of<S: RepresentationTag>(a: &Poly<PowerBasis>, b: &Poly<S>) -> bool {
    a.ctx == b.ctx && forall|i: int| 0 <= i < b.n() ==> b.ctx.ops@[i].is_fwd((#[trigger] b.rows()[i])@, vals(a.rows()[i]@))
}
/// b is the coefficient form computed from a
pub open spec fn back_of<S: RepresentationTag>(a: &Poly<S>, b: &Poly<PowerBasis>) -> bool {
    a.ctx == b.ctx && forall|i: int| 0 <= i < b.n() ==> b.ctx.ops@[i].uniq(a.rows()[i]@, (#[trigger] b.rows()[i])@)
}
pub proof fn lemma_fwd_of<S: RepresentationTag>(a: &Poly<PowerBasis>, b: &Poly<S>, x: Seq<int>)
    requires a.wf(), b.wf(), fwd_of(a, b), a.coefs(x),
    ensures b.isx(x),
{
    assert forall|i: int| 0 <= i < b.n() implies b.ctx.ops@[i].is_fwd((#[trigger] b.rows()[i])@, x) by {
        assert(b.ctx.wf_i(i));
        let v = vals(a.rows()[i]@); let p = b.p(i);
        assert forall|k: int| 0 <= k < v.len() implies eqm(#[trigger] v[k], x[k], p) by {
            assert(a.is_int(k, x[k])); assert(a.rows()[i]@[k] as int == x[k] % p); eqm_self(x[k], p);
        }
        b.ctx.ops@[i].lemma_fwd_cong(b.rows()[i]@, v, x);
    }
}
pub proof fn lemma_back_of<S: RepresentationTag>(a: &Poly<S>, b: &Poly<PowerBasis>, x: Seq<int>)
    requires a.wf(), b.wf(), back_of(a, b), a.isx(x),
    ensures b.coefs(x),
{
    assert forall|j: int| 0 <= j < b.d() implies b.is_int(j, #[trigger] x[j]) by {
        assert forall|i: int| 0 <= i < b.n() implies (#[trigger] b.rows()[i])@[j] as int == x[j] % b.p(i) by {
            assert(b.ctx.wf_i(i)); assert(canon(b.rows()[i]@, b.p(i)));
            assert(b.ctx.ops@[i].is_fwd(a.rows()[i]@, x));
            b.ctx.ops@[i].lemma_back(a.rows()[i]@, b.rows()[i]@, x);
        }
    }
}
pub open spec fn xadd(a: Seq<int>, b: Seq<int>) -> Seq<int> { comb(1, a, 1, b) }
pub open spec fn xsub(a: Seq<int>, b: Seq<int>) -> Seq<int> { comb(1, a, -1, b) }
pub open spec fn xneg(a: Seq<int>) -> Seq<int> { comb(-1, a, 0, a) }
/// the same ring element: equal modulo every modulus
pub proof fn lemma_isx_add(a: Poly<Ntt>, b: Poly<Ntt>, x: Seq<int>, y: Seq<int>)
    requires a.like(&b), a.isx(x), b.isx(y),
    ensures padd(a, b).isx(xadd(x, y)),
{
    let r = padd(a, b);
    assert forall|i: int| 0 <= i < r.n() implies r.ctx.ops@[i].is_fwd((#[trigger] r.rows()[i])@, xadd(x, y)) by {
        assert(a.ctx.wf_i(i) && b.ctx.wf_i(i));
        let (s, t, w) = (r.rows()[i]@, a.rows()[i]@, b.rows()[i]@);
        assert(radd(s, t, w, a.p(i)));
        assert(a.ctx.ops@[i].is_fwd(t, x) && b.ctx.ops@[i].is_fwd(w, y));
        lemma_same_ops(&*a.ctx, &*b.ctx, i, w, y);
        assert forall|k: int| 0 <= k < t.len() implies eqm((#[trigger] s[k]) as int, 1 * t[k] + 1 * w[k], a.p(i)) by {
            assert(s[k] == (t[k] + w[k]) % a.p(i)); eqm_self(t[k] + w[k], a.p(i));
        }
        a.ctx.ops@[i].lemma_comb(s, t, w, 1, x, 1, y);
    }
}
pub proof fn lemma_isx_sub(a: Poly<Ntt>, b: Poly<Ntt>, x: Seq<int>, y: Seq<int>)
    requires a.like(&b), a.isx(x), b.isx(y),
    ensures psub(a, b).isx(xsub(x, y)),
{
    let r = psub(a, b);
    assert forall|i: int| 0 <= i < r.n() implies r.ctx.ops@[i].is_fwd((#[trigger] r.rows()[i])@, xsub(x, y)) by {
        assert(a.ctx.wf_i(i) && b.ctx.wf_i(i));
        let (s, t, w) = (r.rows()[i]@, a.rows()[i]@, b.rows()[i]@);
        assert(rsub(s, t, w, a.p(i)));
        assert(a.ctx.ops@[i].is_fwd(t, x) && b.ctx.ops@[i].is_fwd(w, y));
        lemma_same_ops(&*a.ctx, &*b.ctx, i, w, y);
        assert forall|k: int| 0 <= k < t.len() implies eqm((#[trigger] s[k]) as int, 1 * t[k] + (-1) * w[k], a.p(i)) by {
            assert(s[k] == (t[k] - w[k]) % a.p(i)); eqm_self(t[k] - w[k], a.p(i)); assert((-1) * w[k] == -(w[k] as int));
        }
        a.ctx.ops@[i].lemma_comb(s, t, w, 1, x, -1, y);
    }
}
pub proof fn lemma_isx_neg(a: Poly<Ntt>, x: Seq<int>)
    requires a.wf(), a.isx(x),
    ensures pneg(a).isx(xneg(x)),
{
    let r = pneg(a);
    assert forall|i: int| 0 <= i < r.n() implies r.ctx.ops@[i].is_fwd((#[trigger] r.rows()[i])@, xneg(x)) by {
        assert(a.ctx.wf_i(i));
        let (s, t) = (r.rows()[i]@, a.rows()[i]@);
        assert(rneg(s, t, a.p(i)));
        assert(a.ctx.ops@[i].is_fwd(t, x));
        assert forall|k: int| 0 <= k < t.len() implies eqm((#[trigger] s[k]) as int, (-1) * t[k] + 0 * t[k], a.p(i)) by {
            assert(s[k] == (-t[k]) % a.p(i)); eqm_self(-t[k], a.p(i));
        }
        a.ctx.ops@[i].lemma_comb(s, t, t, -1, x, 0, x);
    }
}
pub proof fn lemma_isx_mul(a: Poly<Ntt>, b: Poly<Ntt>, x: Seq<int>, y: Seq<int>)
    requires a.like(&b), a.isx(x), b.isx(y),
    ensures pmul(a, b).isx(negamul(x, y)),
{
    let r = pmul(a, b);
    lemma_negamul_len(x, y);
    assert forall|i: int| 0 <= i < r.n() implies r.ctx.ops@[i].is_fwd((#[trigger] r.rows()[i])@, negamul(x, y)) by {
        assert(a.ctx.wf_i(i) && b.ctx.wf_i(i));
        let (s, t, w) = (r.rows()[i]@, a.rows()[i]@, b.rows()[i]@);
        assert(rmul(s, t, w, a.p(i)));
        assert(a.ctx.ops@[i].is_fwd(t, x) && b.ctx.ops@[i].is_fwd(w, y));
        lemma_same_ops(&*a.ctx, &*b.ctx, i, w, y);
        a.ctx.ops@[i].lemma_mul(s, t, w, x, y);
    }
}
pub proof fn lemma_isx_muls(a: Poly<Ntt>, b: Poly<NttShoup>, x: Seq<int>, y: Seq<int>)
    requires a.like(&b), a.isx(x), b.isx(y),
    ensures pmuls(a, b).isx(negamul(x, y)),
{
    let r = pmuls(a, b);
    lemma_negamul_len(x, y);
    assert forall|i: int| 0 <= i < r.n() implies r.ctx.ops@[i].is_fwd((#[trigger] r.rows()[i])@, negamul(x, y)) by {
        assert(a.ctx.wf_i(i) && b.ctx.wf_i(i));
        let (s, t, w) = (r.rows()[i]@, a.rows()[i]@, b.rows()[i]@);
        assert(rmul(s, t, w, a.p(i)));
        assert(a.ctx.ops@[i].is_fwd(t, x) && b.ctx.ops@[i].is_fwd(w, y));
        lemma_same_ops(&*a.ctx, &*b.ctx, i, w, y);
        a.ctx.ops@[i].lemma_mul(s, t, w, x, y);
    }
}
pub proof fn lemma_negamul_len(a: Seq<int>, b: Seq<int>)
    ensures negamul(a, b).len() == a.len(),
{ lemma_psum_len2(a, b, a.len()); }
proof fn lemma_psum_len2(a: Seq<int>, b: Seq<int>, t: nat)
    ensures psum(a, b, t).len() == a.len(),
{ }
/// Contexts of the same moduli and degree evaluate at the same points (construction is deterministic;
/// the assumption already made of Context's equality).
pub axiom fn lemma_same_ops(a: &Context, b: &Context, i: int, w: Seq<u64>, y: Seq<int>)
    requires a.wf(), b.wf(), same(a, b), 0 <= i < a.n(), b.ops@[i].is_fwd(w, y),
    ensures a.ops@[i].is_fwd(w, y);
pub broadcast proof fn lemma_fwd_auto<S: RepresentationTag>(a: &Poly<PowerBasis>, b: &Poly<S>, x: Seq<int>)
    requires a.wf(), b.wf(), fwd_of(a, b),
    ensures #![trigger a.coefs(x), b.isx(x)] a.coefs(x) ==> b.isx(x),
{ if a.coefs(x) { lemma_fwd_of(a, b, x); } }
proof fn lemma_rem_zero(a: Seq<int>, c: int, t: nat)
    requires t <= a.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] == 0,
    ensures rem(a, 1, c, 0, t) == 0,
    decreases t,
{
    if t > 0 { lemma_rem_zero(a, c, (t - 1) as nat); assert(a[0 + (t - 1) * 1] == 0); assert(0 * pow(c, (t - 1) as nat) == 0) by (nonlinear_arith); }
}
/// the zero matrix is the zero polynomial
pub proof fn lemma_isx_zero<R: RepresentationTag>(a: &Poly<R>, x: Seq<int>)
    requires a.wf(), x.len() == a.d(), forall|k: int| 0 <= k < x.len() ==> #[trigger] x[k] == 0,
        forall|i: int, j: int| 0 <= i < a.n() && 0 <= j < a.d() ==> (#[trigger] a.rows()[i]@[j]) == 0,
    ensures a.isx(x),
{
    assert forall|i: int| 0 <= i < a.n() implies a.ctx.ops@[i].is_fwd((#[trigger] a.rows()[i])@, x) by {
        assert(a.ctx.wf_i(i));
        let p = a.p(i);
        assert forall|j: int| 0 <= j < a.d() implies eqm(#[trigger] a.rows()[i]@[j] as int, eval(x, a.ctx.ops@[i].point(j)), p) by {
            lemma_rem_zero(x, a.ctx.ops@[i].point(j), x.len()); eqm_refl(0, p);
        }
    }
}
/// only the classes modulo every modulus matter
pub proof fn lemma_isx_cong<R: RepresentationTag>(a: &Poly<R>, x: Seq<int>, y: Seq<int>)
    requires a.wf(), a.isx(x), y.len() == x.len(), forall|i: int, j: int| 0 <= i < a.n() && 0 <= j < x.len() ==> #[trigger] eqm(x[j], y[j], a.p(i)),
    ensures a.isx(y),
{
    assert forall|i: int| 0 <= i < a.n() implies a.ctx.ops@[i].is_fwd((#[trigger] a.rows()[i])@, y) by {
        assert(a.ctx.wf_i(i));
        assert forall|k: int| 0 <= k < x.len() implies eqm(#[trigger] x[k], y[k], a.ctx.ops@[i].p.p as int) by { assert(eqm(x[k], y[k], a.p(i))); }
        a.ctx.ops@[i].lemma_fwd_cong(a.rows()[i]@, x, y);
    }
}
