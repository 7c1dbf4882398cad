//@ import polyops
// ---------------------------------------------------------------------------
// Pointwise products of transforms are products of Z_Q[X]/(X^n + 1)
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::pow2;
use std::sync::Arc;

/// X^k a modulo X^n + 1, k < n = a.len()
pub open spec fn mono(a: Seq<int>, k: int) -> Seq<int> {
    Seq::new(a.len(), |m: int| if m >= k { a[m - k] } else { -a[a.len() + m - k] })
}
/// sum_{k < t} b[k] X^k a modulo X^n + 1
pub open spec fn psum(a: Seq<int>, b: Seq<int>, t: nat) -> Seq<int>
    decreases t,
{
    if t == 0 { Seq::new(a.len(), |m: int| 0) } else {
        let s = psum(a, b, (t - 1) as nat);
        let x = mono(a, t - 1);
        Seq::new(a.len(), |m: int| s[m] + b[t - 1] * x[m])
    }
}
/// product of a and b modulo X^n + 1
pub open spec fn negamul(a: Seq<int>, b: Seq<int>) -> Seq<int> { psum(a, b, a.len()) }

proof fn lemma_psum_len(a: Seq<int>, b: Seq<int>, t: nat)
    ensures psum(a, b, t).len() == a.len(),
{ }
proof fn lemma_rem_lin(r: Seq<int>, s: Seq<int>, x: Seq<int>, f: int, c: int, t: nat)
    requires t <= r.len(), r.len() == s.len(), s.len() == x.len(), forall|m: int| 0 <= m < r.len() ==> #[trigger] r[m] == s[m] + f * x[m],
    ensures rem(r, 1, c, 0, t) == rem(s, 1, c, 0, t) + f * rem(x, 1, c, 0, t),
    decreases t,
{
    if t > 0 {
        let d = (t - 1) as nat;
        lemma_rem_lin(r, s, x, f, c, d);
        let v = pow(c, d);
        assert(0 + (t - 1) * 1 == d);
        assert(r[d as int] == s[d as int] + f * x[d as int]);
        let (sd, xd, rs, rx) = (s[d as int], x[d as int], rem(s, 1, c, 0, d), rem(x, 1, c, 0, d));
        assert((rs + f * rx) + (sd + f * xd) * v == (rs + sd * v) + f * (rx + xd * v)) by(nonlinear_arith);
    } else {
        assert(f * 0 == 0);
    }
}
/// c eval(a) == eval(X a) when c^n == -1
proof fn lemma_shift(a: Seq<int>, k: int, c: int, t: nat)
    requires 0 <= k, k + 1 < a.len(), 1 <= t <= a.len(),
    ensures rem(mono(a, k + 1), 1, c, 0, t) == mono(a, k + 1)[0] + c * rem(mono(a, k), 1, c, 0, (t - 1) as nat),
    decreases t,
{
    let x = mono(a, k + 1);
    let y = mono(a, k);
    let d = (t - 1) as nat;
    assert(0 + (t - 1) * 1 == d);
    if t == 1 {
        lemma_pow0(c);
        assert(rem(x, 1, c, 0, 1) == rem(x, 1, c, 0, 0) + x[0] * pow(c, 0));
        assert(c * 0 == 0);
    } else {
        lemma_shift(a, k, c, d);
        let e = (d - 1) as nat;
        assert(x[d as int] == y[e as int]);
        lemma_pow_adds(c, 1, e);
        lemma_pow1(c);
        let (v, r, z) = (pow(c, e), rem(y, 1, c, 0, e), y[e as int]);
        assert(0 + (d - 1) * 1 == e);
        assert(rem(y, 1, c, 0, d) == r + z * v);
        assert(pow(c, d) == c * v);
        assert(x[0] + c * r + z * (c * v) == x[0] + c * (r + z * v)) by(nonlinear_arith);
    }
}
pub proof fn lemma_mono_eval(a: Seq<int>, k: nat, c: int, p: int)
    requires 0 < p, k < a.len(), eqm(pow(c, a.len()), -1, p),
    ensures eqm(eval(mono(a, k as int), c), pow(c, k) * eval(a, c), p),
    decreases k,
{
    let n = a.len();
    if k == 0 {
        assert(mono(a, 0) =~= a);
        lemma_pow0(c);
        assert(1 * eval(a, c) == eval(a, c));
        eqm_refl(eval(a, c), p);
    } else {
        let j = (k - 1) as nat;
        lemma_mono_eval(a, j, c, p);
        lemma_shift(a, j as int, c, n);
        let x = mono(a, k as int);
        let y = mono(a, j as int);
        let d = (n - 1) as nat;
        let z = y[d as int];
        assert(x[0] == -z);
        assert(0 + (n - 1) * 1 == d);
        let r = rem(y, 1, c, 0, d);
        let v = pow(c, d);
        assert(eval(y, c) == r + z * v);
        lemma_pow_adds(c, 1, d);
        lemma_pow1(c);
        let w = pow(c, n);
        assert(w == c * v);
        let ey = eval(y, c);
        assert(-z + c * r == c * ey + (-z) * (1 + w)) by(nonlinear_arith) requires ey == r + z * v, w == c * v;
        let kk = eqm_wit(w, -1, p);
        assert((-z) * (1 + w) == ((-z) * kk) * p) by(nonlinear_arith) requires w == -1 + kk * p;
        eqm_of(eval(x, c), c * ey, (-z) * kk, p);
        eqm_mulc(ey, pow(c, j) * eval(a, c), c, p);
        lemma_pow_adds(c, 1, j);
        let (pj, ea) = (pow(c, j), eval(a, c));
        assert(ey * c == c * ey) by(nonlinear_arith);
        assert((pj * ea) * c == (c * pj) * ea) by(nonlinear_arith);
        eqm_trans(eval(x, c), c * ey, pow(c, k) * ea, p);
    }
}
proof fn lemma_psum_eval(a: Seq<int>, b: Seq<int>, t: nat, c: int, p: int)
    requires 0 < p, t <= a.len(), a.len() == b.len(), eqm(pow(c, a.len()), -1, p),
    ensures eqm(eval(psum(a, b, t), c), rem(b, 1, c, 0, t) * eval(a, c), p),
    decreases t,
{
    let n = a.len();
    if t == 0 {
        lemma_rem_zero(psum(a, b, 0), c, n);
        assert(0 * eval(a, c) == 0);
        eqm_refl(0, p);
    } else {
        let d = (t - 1) as nat;
        lemma_psum_eval(a, b, d, c, p);
        lemma_mono_eval(a, d, c, p);
        let f = b[d as int];
        lemma_rem_lin(psum(a, b, t), psum(a, b, d), mono(a, d as int), f, c, n);
        let (u, v) = (eval(psum(a, b, d), c), eval(mono(a, d as int), c));
        let (ea, pc, rb) = (eval(a, c), pow(c, d), rem(b, 1, c, 0, d));
        eqm_mulc(v, pc * ea, f, p);
        eqm_add(u, rb * ea, v * f, (pc * ea) * f, p);
        assert(u + v * f == u + f * v) by(nonlinear_arith);
        assert(0 + (t - 1) * 1 == d);
        assert(rb * ea + (pc * ea) * f == (rb + f * pc) * ea) by(nonlinear_arith);
    }
}
proof fn lemma_rem_zero(s: Seq<int>, c: int, t: nat)
    requires t <= s.len(), forall|m: int| 0 <= m < s.len() ==> #[trigger] s[m] == 0,
    ensures rem(s, 1, c, 0, t) == 0,
    decreases t,
{
    if t > 0 {
        let d = (t - 1) as nat;
        lemma_rem_zero(s, c, d);
        assert(0 + (t - 1) * 1 == d);
        assert(s[d as int] == 0);
        assert(0 * pow(c, d) == 0);
    }
}
/// evaluation at an n-th root of -1 is multiplicative
pub proof fn lemma_negamul_eval(a: Seq<int>, b: Seq<int>, c: int, p: int)
    requires 0 < p, a.len() == b.len(), eqm(pow(c, a.len()), -1, p),
    ensures eqm(eval(negamul(a, b), c), eval(a, c) * eval(b, c), p), negamul(a, b).len() == a.len(),
{
    lemma_psum_eval(a, b, a.len(), c, p);
    let (x, y) = (eval(a, c), eval(b, c));
    assert(x * y == y * x) by(nonlinear_arith);
}
/// every node of level e of the tree is a 2^e-th root of -1
proof fn lemma_node(om: Seq<u64>, n: int, k: int, e: nat, p: int)
    requires 0 < p, om.len() == n, tree_ok(om, n, p), pow2(e) <= k < 2 * pow2(e), k < 2 * n,
    ensures eqm(pow(cst(om, k), pow2(e)), -1, p),
    decreases e,
{
    let c = cst(om, k);
    if e == 0 {
        vstd::arithmetic::power2::lemma2_to64();
        lemma_pow1(c);
        eqm_refl(-1, p);
    } else {
        let d = (e - 1) as nat;
        vstd::arithmetic::power2::lemma_pow2_unfold(e);
        vstd::arithmetic::power2::lemma_pow2_pos(d);
        let h = k / 2;
        assert(pow2(d) <= h < 2 * pow2(d) && 1 <= h < n);
        lemma_node(om, n, h, d, p);
        assert(k == 2 * h || k == 2 * h + 1);
        assert(eqm(om[h] as int * om[h] as int, cst(om, h), p));
        assert(c * c == om[h] as int * om[h] as int) by {
            if k % 2 == 0 { assert(c == om[h] as int); } else {
                assert(c == -(om[h] as int));
                let z = om[h] as int;
                assert((-z) * (-z) == z * z) by(nonlinear_arith);
            }
        }
        eqm_pow(c * c, cst(om, h), pow2(d), p);
        lemma_pow_multiplies(c, 2, pow2(d));
        assert(pow(c, 2) == c * c) by { reveal_with_fuel(pow, 3); }
        eqm_trans(pow(c, pow2(e)), pow(cst(om, h), pow2(d)), -1, p);
    }
}
impl NttOperator {
    pub proof fn lemma_point(&self, i: int)
        requires self.wfx(), 0 <= i < self.size,
        ensures eqm(pow(self.point(i), self.size as nat), -1, self.p.p as int),
    {
        let lg = lgc(self.size as int);
        lemma_node(self.omegas@, self.size as int, self.size + i, lg, self.p.p as int);
    }
    /// the transform of a product is the pointwise product of the transforms
    pub proof fn lemma_mul(&self, r: Seq<u64>, x: Seq<u64>, y: Seq<u64>, a: Seq<int>, b: Seq<int>)
        requires self.wfx(), self.is_fwd(x, a), self.is_fwd(y, b), rmul(r, x, y, self.p.p as int), r.len() == x.len(),
        ensures self.is_fwd(r, negamul(a, b)),
    {
        let p = self.p.p as int;
        lemma_psum_len(a, b, a.len());
        assert forall|i: int| 0 <= i < self.size implies eqm(#[trigger] r[i] as int, eval(negamul(a, b), self.point(i)), p) by {
            let c = self.point(i);
            self.lemma_point(i);
            lemma_negamul_eval(a, b, c, p);
            assert(eqm(x[i] as int, eval(a, c), p) && eqm(y[i] as int, eval(b, c), p));
            eqm_mul(x[i] as int, eval(a, c), y[i] as int, eval(b, c), p);
            eqm_self(x[i] * y[i], p);
            assert(r[i] == (x[i] * y[i]) % p);
            let e = eval(a, c) * eval(b, c);
            eqm_trans(r[i] as int, x[i] * y[i], e, p);
            eqm_sym(eval(negamul(a, b), c), e, p);
            eqm_trans(r[i] as int, e, eval(negamul(a, b), c), p);
        }
    }
}
/// f a + g b
pub open spec fn comb(f: int, a: Seq<int>, g: int, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |m: int| f * a[m] + g * b[m]) }
pub proof fn lemma_rem_comb(a: Seq<int>, b: Seq<int>, f: int, g: int, c: int, t: nat)
    requires t <= a.len(), a.len() == b.len(),
    ensures rem(comb(f, a, g, b), 1, c, 0, t) == f * rem(a, 1, c, 0, t) + g * rem(b, 1, c, 0, t),
    decreases t,
{
    if t > 0 {
        let d = (t - 1) as nat;
        lemma_rem_comb(a, b, f, g, c, d);
        assert(0 + (t - 1) * 1 == d);
        let (x, y, u, v, w) = (a[d as int], b[d as int], rem(a, 1, c, 0, d), rem(b, 1, c, 0, d), pow(c, d));
        assert((f * u + g * v) + (f * x + g * y) * w == f * (u + x * w) + g * (v + y * w)) by(nonlinear_arith);
    } else {
        assert(f * 0 + g * 0 == 0);
    }
}
impl NttOperator {
    /// the transform of a linear combination is the combination of the transforms
    pub proof fn lemma_comb(&self, r: Seq<u64>, x: Seq<u64>, y: Seq<u64>, f: int, a: Seq<int>, g: int, b: Seq<int>)
        requires self.wfx(), self.is_fwd(x, a), self.is_fwd(y, b), r.len() == x.len(),
            forall|k: int| 0 <= k < x.len() ==> eqm((#[trigger] r[k]) as int, f * x[k] + g * y[k], self.p.p as int),
        ensures self.is_fwd(r, comb(f, a, g, b)),
    {
        let p = self.p.p as int;
        assert forall|i: int| 0 <= i < self.size implies eqm(#[trigger] r[i] as int, eval(comb(f, a, g, b), self.point(i)), p) by {
            let c = self.point(i);
            lemma_rem_comb(a, b, f, g, c, a.len());
            assert(eqm(x[i] as int, eval(a, c), p) && eqm(y[i] as int, eval(b, c), p));
            eqm_mulc(x[i] as int, eval(a, c), f, p);
            eqm_mulc(y[i] as int, eval(b, c), g, p);
            let (u, v) = (eval(a, c), eval(b, c));
            assert(u * f == f * u && v * g == g * v && x[i] * f == f * x[i] && y[i] * g == g * y[i]) by(nonlinear_arith);
            eqm_add(f * x[i], f * u, g * y[i], g * v, p);
            eqm_trans(r[i] as int, f * x[i] + g * y[i], f * u + g * v, p);
        }
    }
    pub proof fn lemma_back(&self, b: Seq<u64>, a: Seq<u64>, v: Seq<int>)
        requires self.wfx(), self.uniq(b, a), self.is_fwd(b, v), a.len() == self.size, canon(a, self.p.p as int),
        ensures forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]) == v[k] % (self.p.p as int),
    {
        reveal(NttOperator::uniq);
        assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]) == v[k] % (self.p.p as int) by {
            let p = self.p.p as int;
            assert(eqm(a[k] as int, v[k], p));
            assert(a[k] < p);
            eqm_get(a[k] as int, v[k], p);
            lemma_small_mod(a[k] as nat, p as nat);
        }
    }
}
/// r[k] == v[k] mod p for all k
pub open spec fn resid(r: Seq<u64>, v: Seq<int>, p: int) -> bool { r.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] r[k]) == v[k] % p }

// The theorems of C07 as programs over the contracts of the library's functions.
/// a product computed in NTT form is the product of the ring
pub fn theorem_mul(a: Poly<PowerBasis>, b: Poly<PowerBasis>) -> (r: Poly<PowerBasis>)
    requires a.wf(), b.wf(), a.ctx == b.ctx,
    ensures r.wf(), r.ctx == a.ctx,
        forall|i: int| 0 <= i < r.n() ==> resid((#[trigger] r.rows()[i])@, negamul(vals(a.rows()[i]@), vals(b.rows()[i]@)), r.p(i)),
{
    let ghost (a0, b0) = (a, b);
    let x = a.into_ntt();
    let y = b.into_ntt();
    let z = x.mul_ntt(&y);
    let ghost zz = z;
    let r = z.into_power_basis();
    proof {
        assert forall|i: int| 0 <= i < r.n() implies resid((#[trigger] r.rows()[i])@, negamul(vals(a0.rows()[i]@), vals(b0.rows()[i]@)), r.p(i)) by {
            let o = r.ctx.ops@[i];
            let (u, v) = (vals(a0.rows()[i]@), vals(b0.rows()[i]@));
            assert(r.ctx.wf_i(i));
            assert(rmul(zz.rows()[i]@, x.rows()[i]@, y.rows()[i]@, r.p(i)));
            assert(zz.rows()[i]@.len() == r.d() && x.rows()[i]@.len() == r.d());
            o.lemma_mul(zz.rows()[i]@, x.rows()[i]@, y.rows()[i]@, u, v);
            lemma_psum_len(u, v, u.len());
            assert(canon(r.rows()[i]@, r.p(i)));
            o.lemma_back(zz.rows()[i]@, r.rows()[i]@, negamul(u, v));
        }
    }
    r
}
/// the same with a factor in Shoup form
pub fn theorem_mul_shoup(a: Poly<PowerBasis>, b: Poly<PowerBasis>) -> (r: Poly<PowerBasis>)
    requires a.wf(), b.wf(), a.ctx == b.ctx,
    ensures r.wf(), r.ctx == a.ctx,
        forall|i: int| 0 <= i < r.n() ==> resid((#[trigger] r.rows()[i])@, negamul(vals(a.rows()[i]@), vals(b.rows()[i]@)), r.p(i)),
{
    let ghost (a0, b0) = (a, b);
    let x = a.into_ntt();
    let y = b.into_ntt_shoup();
    let z = x.mul_shoup(&y);
    let ghost zz = z;
    let r = z.into_power_basis();
    proof {
        assert forall|i: int| 0 <= i < r.n() implies resid((#[trigger] r.rows()[i])@, negamul(vals(a0.rows()[i]@), vals(b0.rows()[i]@)), r.p(i)) by {
            let o = r.ctx.ops@[i];
            let (u, v) = (vals(a0.rows()[i]@), vals(b0.rows()[i]@));
            assert(r.ctx.wf_i(i));
            assert(rmul(zz.rows()[i]@, x.rows()[i]@, y.rows()[i]@, r.p(i)));
            assert(zz.rows()[i]@.len() == r.d() && x.rows()[i]@.len() == r.d());
            o.lemma_mul(zz.rows()[i]@, x.rows()[i]@, y.rows()[i]@, u, v);
            lemma_psum_len(u, v, u.len());
            assert(canon(r.rows()[i]@, r.p(i)));
            o.lemma_back(zz.rows()[i]@, r.rows()[i]@, negamul(u, v));
        }
    }
    r
}
/// sums, differences and negations computed in NTT form are those of the ring
pub fn theorem_linear(a: Poly<PowerBasis>, b: Poly<PowerBasis>) -> (r: (Poly<PowerBasis>, Poly<PowerBasis>, Poly<PowerBasis>))
    requires a.wf(), b.wf(), a.ctx == b.ctx,
    ensures r.0.wf(), r.1.wf(), r.2.wf(), r.0.ctx == a.ctx, r.1.ctx == a.ctx, r.2.ctx == a.ctx,
        forall|i: int| 0 <= i < a.n() ==> resid((#[trigger] r.0.rows()[i])@, comb(1, vals(a.rows()[i]@), 1, vals(b.rows()[i]@)), a.p(i)),
        forall|i: int| 0 <= i < a.n() ==> resid((#[trigger] r.1.rows()[i])@, comb(1, vals(a.rows()[i]@), -1, vals(b.rows()[i]@)), a.p(i)),
        forall|i: int| 0 <= i < a.n() ==> resid((#[trigger] r.2.rows()[i])@, comb(-1, vals(a.rows()[i]@), 0, vals(a.rows()[i]@)), a.p(i)),
{
    let ghost (a0, b0) = (a, b);
    let x = a.into_ntt();
    let y = b.into_ntt();
    let z0 = x.clone().add_ref(&y);
    let z1 = x.clone().sub_ref(&y);
    let z2 = x.clone().neg_ref();
    let ghost (g0, g1, g2) = (z0, z1, z2);
    let r = (z0.into_power_basis(), z1.into_power_basis(), z2.into_power_basis());
    proof {
        assert forall|i: int| 0 <= i < a0.n() implies resid((#[trigger] r.0.rows()[i])@, comb(1, vals(a0.rows()[i]@), 1, vals(b0.rows()[i]@)), a0.p(i)) by {
            let o = a0.ctx.ops@[i]; let p = a0.p(i);
            let (u, v) = (vals(a0.rows()[i]@), vals(b0.rows()[i]@));
            let (s, t, w) = (g0.rows()[i]@, x.rows()[i]@, y.rows()[i]@);
            assert(a0.ctx.wf_i(i));
            assert(radd(s, t, w, p));
            assert(s.len() == a0.d() && t.len() == a0.d());
            assert forall|k: int| 0 <= k < t.len() implies eqm((#[trigger] s[k]) as int, 1 * t[k] + 1 * w[k], p) by {
                assert(s[k] == (t[k] + w[k]) % p); eqm_self(t[k] + w[k], p);
            }
            o.lemma_comb(s, t, w, 1, u, 1, v);
            assert(canon(r.0.rows()[i]@, p));
            o.lemma_back(s, r.0.rows()[i]@, comb(1, u, 1, v));
        }
        assert forall|i: int| 0 <= i < a0.n() implies resid((#[trigger] r.1.rows()[i])@, comb(1, vals(a0.rows()[i]@), -1, vals(b0.rows()[i]@)), a0.p(i)) by {
            let o = a0.ctx.ops@[i]; let p = a0.p(i);
            let (u, v) = (vals(a0.rows()[i]@), vals(b0.rows()[i]@));
            let (s, t, w) = (g1.rows()[i]@, x.rows()[i]@, y.rows()[i]@);
            assert(a0.ctx.wf_i(i));
            assert(rsub(s, t, w, p));
            assert(s.len() == a0.d() && t.len() == a0.d());
            assert forall|k: int| 0 <= k < t.len() implies eqm((#[trigger] s[k]) as int, 1 * t[k] + (-1) * w[k], p) by {
                assert(s[k] == (t[k] - w[k]) % p); eqm_self(t[k] - w[k], p);
                assert((-1) * w[k] == -(w[k] as int));
            }
            o.lemma_comb(s, t, w, 1, u, -1, v);
            assert(canon(r.1.rows()[i]@, p));
            o.lemma_back(s, r.1.rows()[i]@, comb(1, u, -1, v));
        }
        assert forall|i: int| 0 <= i < a0.n() implies resid((#[trigger] r.2.rows()[i])@, comb(-1, vals(a0.rows()[i]@), 0, vals(a0.rows()[i]@)), a0.p(i)) by {
            let o = a0.ctx.ops@[i]; let p = a0.p(i);
            let u = vals(a0.rows()[i]@);
            let (s, t) = (g2.rows()[i]@, x.rows()[i]@);
            assert(a0.ctx.wf_i(i));
            assert(rneg(s, t, p));
            assert(s.len() == a0.d() && t.len() == a0.d());
            assert forall|k: int| 0 <= k < t.len() implies eqm((#[trigger] s[k]) as int, (-1) * t[k] + 0 * t[k], p) by {
                assert(s[k] == (-t[k]) % p); eqm_self(-t[k], p);
            }
            o.lemma_comb(s, t, t, -1, u, 0, u);
            assert(canon(r.2.rows()[i]@, p));
            o.lemma_back(s, r.2.rows()[i]@, comb(-1, u, 0, u));
        }
    }
    r
}
/// any sequence of representation changes gives back the polynomial
pub fn theorem_representations(a: Poly<PowerBasis>, shoup: bool) -> (r: Poly<PowerBasis>)
    requires a.wf(),
    ensures r.wf(), sameval(&r, &a) || (r.ctx == a.ctx && forall|i: int| 0 <= i < r.n() ==> (#[trigger] r.rows()[i])@ == a.rows()[i]@),
        r.allow_variable_time_computations == a.allow_variable_time_computations,
{
    let ghost a0 = a;
    let ghost zr;
    let r = if shoup {
        let x = a.into_ntt_shoup();
        proof { zr = x.rows(); }
        let y = x.into_ntt();
        let z = y.into_ntt_shoup();
        z.into_power_basis()
    } else {
        let x = a.into_ntt();
        proof { zr = x.rows(); }
        let y = x.into_ntt_shoup();
        let z = y.into_ntt();
        z.into_power_basis()
    };
    proof {
        assert forall|i: int| 0 <= i < r.n() implies (#[trigger] r.rows()[i])@ == a0.rows()[i]@ by {
            let o = r.ctx.ops@[i];
            assert(r.ctx.wf_i(i));
            assert(o.is_fwd(zr[i]@, vals(a0.rows()[i]@)));
            assert(canon(r.rows()[i]@, r.p(i)) && canon(a0.rows()[i]@, r.p(i)));
            o.lemma_back(zr[i]@, r.rows()[i]@, vals(a0.rows()[i]@));
            assert forall|k: int| 0 <= k < r.d() implies r.rows()[i]@[k] == a0.rows()[i]@[k] by {
                lemma_small_mod(a0.rows()[i]@[k] as nat, r.p(i) as nat);
            }
            assert(r.rows()[i]@ =~= a0.rows()[i]@);
        }
    }
    r
}
